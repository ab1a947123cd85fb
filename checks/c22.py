"""C22: conditions and references are decided in the right context."""
import copy

from vf import dgen, rdata, rxpath, util, xgen
from vf.core import Group
from vf.gen import Model, Profile, bad_config, bad_defaults, gen_model
from vf.hist import cr
from vf.rdata import RawErr
from vf.yst import S
from checks import c08
from checks.c04 import compare
from checks.c07 import XN, idents, ref_eval

PROPERTY = "C22"
RULE = ("random models in which when and must statements with generated XPath expressions are placed on data nodes, choices, cases, "
        "uses, augments, refines and deviations (in groupings, submodules and other modules), and leafrefs and instance identifiers "
        "with generated paths; one evaluation = one document (a valid one or a mutation of it, guided by the nodes the expressions "
        "touch) whose verdict is compared with the reference validator, or one deref(); non-trivial if some condition or reference "
        "applies to a node of it")
ASSUMPTIONS = ["members of an object have no order: documents whose verdict depends on it in the reference are left out",
               "conditions that depend on other conditional nodes are left out for 'when' (RFC 7950 leaves cycles undefined)",
               "must and leafref constraints are checked for the nodes that are present"]

WHEN = ("container", "leaf", "leaf-list", "list", "choice", "case", "anydata", "uses", "augment")
MUST = ("container", "leaf", "leaf-list", "list", "anydata", "refine", "deviation")
OPS = ("rpc", "action", "notification")


rdata.RI.skip_any = True


class T(XN):
    """Reference node that notes whose value was used."""
    log = None

    def __init__(self, ri, parent):
        super().__init__(ri, parent)
        self.kids = [T(k, self) for k in ri.kids]

    def xp_string(self):
        if T.log is not None:
            T.log.extend(self.node.walk())
        return super().xp_string()


def trees(ri, rng):
    out = []
    for i in range(3):
        t = T(ri, None)
        if i:
            t.permute(rng if i > 1 else None)
        t.number()
        out.append((t, {n.path(): n for n in t.walk()}))
    return out


class Place:
    """A marked condition."""

    def __init__(self, stmt, cond, n):
        self.stmt, self.n = stmt, n
        mk = f"'mk{n}'"
        if stmt.kw == "deviation":
            d = S("deviate", "add", S("must", mk, S("error-app-tag", f"tag{n}")))
            self.holder, self.added, self.cond = stmt, d, d.one("must")
        else:
            self.cond = S(cond, mk)
            if cond == "must":
                self.cond.add(S("error-app-tag", f"tag{n}"))
            self.holder, self.added = stmt, self.cond
        self.mark = mk
        self.holder.add(self.added)

    def remove(self):
        self.holder.subs = [x for x in self.holder.subs if x is not self.added]

    def carriers(self, lib):
        """[(schema node, context, text module)]"""
        out = []
        for n in lib.root.walk():
            if self.cond.kw == "when":
                out += [(n, w[1], w[2]) for w in n.whens if w[0] == self.mark]
            else:
                out += [(n, "self", w[3]) for w in n.musts if w[0] == self.mark]
        return [x for x in out if not inop(x[0])]


def inop(n):
    while n is not None:
        if n.kw in OPS:
            return True
        n = n.parent
    return False


def iskey(n):
    p = n.dparent()
    return p is not None and p.kw == "list" and (n.ns, n.name) in p.keys


def mark(m, rng, p):
    """Put markers into the model."""
    places = []
    stmts = [s for mod in m.mods if mod.implement or rng.random() < 0.7 for t in mod.texts() for s in t.stmt.walk()]
    for s in stmts:
        q = s.parent
        if s.kw == "deviation":
            if all(d.arg != "not-supported" for d in s.all("deviate")) and rng.random() < 0.6:
                places.append(Place(s, "must", len(places)))
            continue
        if s.kw in WHEN and s.one("when") is None and rng.random() < (p if s.kw not in ("augment", "uses", "case") else 0.5):
            places.append(Place(s, "when", len(places)))
        if s.kw in MUST and rng.random() < (p if s.kw != "refine" else 0.6):
            places.append(Place(s, "must", len(places)))
    return places


def prune(m, places):
    """Remove the markers at places where they have no meaning."""
    lib = Model(m.mods).lib
    good = []
    for p in places:
        cs = p.carriers(lib)
        if p.cond.kw == "when":
            bad = any(iskey(c) for c, _, _ in cs)
        else:
            bad = any(c.kw not in ("container", "list", "leaf", "leaf-list", "anydata", "anyxml") for c, _, _ in cs)
            if p.stmt.kw in ("refine", "deviation"):
                bad |= any(not c for c in cs)
        if bad or (not cs and p.stmt.kw in ("refine", "deviation")):
            p.remove()
        else:
            good.append(p)
    return good


class Conditions:
    """Expressions for the markers, from a document."""

    def __init__(self, ctx, rng, prof):
        self.ctx, self.rng = ctx, rng
        m = gen_model(rng, prof)
        places = prune(m, mark(m, rng, rng.choice([0.15, 0.3])))
        self.m = Model(m.mods)
        self.places = places
        self.ok = False
        lib = self.lib = self.m.lib
        if bad_config(lib.root) or bad_defaults(lib.root):
            return
        dg = dgen.DG(lib, rng, density=rng.choice([0.5, 0.7, 0.9]), anydata=False)
        r = dg.valid("all")
        if r is None:
            ctx.ev("no valid document found")
            return
        self.raw, self.ri = r
        fri = rdata.decode(lib.root, rdata.with_defaults(self.ri), lib)
        self.trees = trees(fri, rng)
        self.real = {n.path() for n in self.ri.walk()}
        self.cond_nodes = set()
        for n in lib.root.walk():
            if n.whens:
                self.cond_nodes.update(n.walk())
        self.touched = set()
        self.done = []
        for p in places:
            self.place(p)
        self.m = Model(m.mods)
        self.lib = self.m.lib
        self.ok = True

    def place(self, p):
        cs = p.carriers(self.lib)
        jobs = []             # (carrier, trees, path, present)
        for c, kind, tm in cs:
            if p.cond.kw == "must":
                jobs += [(c, tm, self.trees, n.path(), True) for n in self.trees[0][0].walk() if n.node is c
                         and n.path() in self.real]
                continue
            dp = c.dparent()
            for n in self.trees[0][0].walk():
                if n.node is not dp or n.path() not in self.real:
                    continue
                dn = [c] if c.kw not in ("choice", "case") else c.dchildren()
                present = any(k.node in dn for k in n.kids)
                if kind == "parent":
                    jobs.append((c, tm, self.trees, n.path(), present))
                else:
                    jobs.append((c, tm, self.dummy(n.path(), c), n.path() + (c.iname(),), present))
        if not jobs:
            return
        if len(jobs) > 12:
            jobs = self.rng.sample(jobs, 12)
        for _ in range(14):
            if self.attempt(p, jobs):
                return
        self.ctx.ev("no expression found")

    def dummy(self, ppath, c):
        """Trees in which the instances of c in one object are a dummy."""
        out = []
        for t, idx in trees(_ri_of(self.trees[0][0]), self.rng):
            pn = idx[ppath]
            d = T.__new__(T)
            d.node, d.val, d.key, d.parent, d.kids, d._path, d._s, d.rank = c, None, None, pn, [], None, None, 0
            d.dummy = True
            pn.kids = [k for k in pn.kids if k.node is not c] + [d]
            t.number()
            out.append((t, {n.path(): n for n in t.walk()}))
        return out

    def attempt(self, p, jobs):
        rng = self.rng
        c, tm, trs, path, present = rng.choice(jobs)
        ns = c.ns
        if p.cond.kw == "when" and p.stmt.kw in ("augment", "uses") and c.dparent().ns not in (None, ns):
            gns = "\0"            # the namespace of unprefixed names is open to interpretation
        else:
            gns = ns
        env = rdata.env_for(tm, gns, self.lib)
        cur = trs[0][1][path]
        g = xgen.XG(rng, env, cur, idents(self.lib, tm), self.lib)
        if rng.random() < 0.6:
            text = directed(g, rng, trs[0][0], cur)
            if text is None:
                return False
        else:
            toks = g.bool(cur, rng.choice([1, 2, 2, 3]))
            if len(toks) > 60 or env.patterns or "deref" in toks:
                return False
            text = xgen.glue(toks, rng)
        try:
            ast = rxpath.P(text).parse()
        except rxpath.XErr:
            return False
        res = []
        for c, tm2, trs, path, present in jobs:
            e = rdata.env_for(tm2, "\0" if gns == "\0" else c.ns, self.lib)
            e.log = []
            T.log = []
            try:
                v = ref_eval(Trees(trs), ast, e, path)
            finally:
                used, T.log = T.log, None
            if v[0] != "bool":
                return False
            used += [n for n in e.log if not above(n, c)]
            if p.cond.kw == "when" and any(n in self.cond_nodes for n in used):
                return False
            res.append((v[1], present, set(used)))
        need = [v for v, pr, _ in res if pr]
        if need and all(not v for v in need):
            text = f"not({text})"
            res = [(not v, pr, u) for v, pr, u in res]
        elif need and not all(need):
            if p.cond.kw == "when" or rng.random() < 0.8:
                return False
        elif not need and all(not v for v, _, _ in res) and rng.random() < 0.5:
            text = f"not({text})"
        if text.strip() in ("true()", "not(false())") and rng.random() < 0.9:
            return False
        p.cond.arg = text
        for _, _, u in res:
            self.touched |= {n.spath_t() for n in u if n.kw in ("leaf", "leaf-list", "list", "container")}
        self.done.append((p, res))
        self.ctx.ev(f"{p.cond.kw} on {p.stmt.kw}")
        if any(v for v, _, _ in res) and any(not v for v, _, _ in res):
            self.ctx.ev("conditions that hold in some places only")
        return True


def chain(n):
    out = []
    while n.parent is not None:
        out.append(n)
        n = n.parent
    return out[::-1]


def down(g, rng, nodes, cur, preds):
    """Steps down a path of nodes, some with predicates."""
    out = []
    for y in nodes:
        nm = g.name(y.xp_qn())
        if nm is None:
            return None
        if y.key is not None and preds and rng.random() < 0.5:
            ks = [k for k in y.kids if k.val is not None and (y.node.kw == "list")]
            if ks and rng.random() < 0.8:
                k = rng.choice(ks)
                kn = g.name(k.xp_qn())
                v = k.xp_string()
                if kn is None or "'" in v:
                    return None
                same = [z for z in walk_top(cur) if z.val is not None and z.xp_string() == v and z is not k]
                if same and rng.random() < 0.6:
                    z = rng.choice(same)
                    p = relative(g, rng, cur, z, False)
                    if p is None:
                        return None
                    nm += f"[{kn} = current()/{p}]"
                else:
                    nm += f"[{kn} = '{v}']"
            elif y.val is not None and "'" not in y.xp_string():
                nm += f"[. = '{y.xp_string()}']"
            else:
                nm += f"[{y.key + 1}]"
        out.append(nm)
    return "/".join(out)


def walk_top(n):
    while n.parent is not None:
        n = n.parent
    return list(n.walk())


def relative(g, rng, cur, y, preds=True):
    a, b = chain(cur), chain(y)
    k = 0
    while k < len(a) and k < len(b) and a[k] is b[k]:
        k += 1
    ups = [".."] * (len(a) - k)
    if rng.random() < 0.25 and k:
        j = rng.randint(1, k)
        k -= j
        ups += [".."] * j
    d = down(g, rng, b[k:], cur, preds)
    if d is None:
        return None
    return "/".join(ups + ([d] if d else [])) or "."


def directed(g, rng, top, cur):
    """A condition of the usual kinds on some node."""
    ys = [y for y in top.walk() if y.parent is not None and not getattr(y, "dummy", False)]
    if not ys:
        return None
    leaves = [y for y in ys if y.val is not None]
    y = rng.choice(leaves if leaves and rng.random() < 0.8 else ys)
    if rng.random() < 0.35:
        p = down(g, rng, chain(y), cur, True)
        p = None if p is None else "/" + p
    else:
        p = relative(g, rng, cur, y)
        if p is not None and rng.random() < 0.2:
            p = "current()/" + p
    if p is None:
        return None
    x = rng.random()
    if y.val is not None and x < 0.6:
        v = y.xp_string()
        if "'" in v:
            return None
        if y.val[0][0] == "id" and g.idents and rng.random() < 0.5:
            return f"{rng.choice(['derived-from', 'derived-from-or-self'])}({p}, '{rng.choice(g.idents)}')"
        return f"{p} {rng.choice(['=', '=', '!='])} '{v}'"
    if x < 0.75:
        return p
    if x < 0.9:
        return f"count({p}) {rng.choice(['=', '<', '>'])} {rng.choice('012')}"
    return rng.choice([f"local-name({p}) = '{y.node.name}'", f"not({p})", f"boolean({p})", f"name({p}) = '{y.node.iname()}'",
                       f"count({p}/..) = 1", f"string-length({p}) > 2", f"{p} = current()"])


class Trees:
    def __init__(self, t):
        self.trees = t


def _ri_of(x):
    """XN trees are made from anything with node, val, key, kids."""
    class R:
        pass

    def rec(n):
        r = R()
        r.node, r.val, r.key = n.node, n.val, n.key
        r.kids = [rec(k) for k in n.kids]
        r.path = lambda: ()
        return r
    return rec(x)


def above(n, c):
    c = c.parent
    while c is not None:
        if c is n:
            return True
        c = c.parent
    return False


def errors(lib, raw, rng, n=3):
    """Reference errors, or None if they depend on the order of members."""
    out = None
    for i in range(n):
        r = raw if i == 0 else shuffled(raw, rng)
        try:
            es = rdata.validate(rdata.decode(lib.root, r, lib), lib, "all")
        except RawErr:
            return "raw"
        except rxpath.XErr:
            return None
        es = {(e[0], e[1], e[2] if e[0] == "must" else None) for e in es}
        if out is not None and es != out:
            return None
        out = es
    return out


def shuffled(v, rng):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(v[k], rng) for k in ks}
    if isinstance(v, list):
        return [shuffled(x, rng) for x in v]
    return v


def poke(raw, lib, rng, dg, touched):
    """Change a node that some expression has looked at."""
    raw = copy.deepcopy(raw)
    ri = rdata.decode(lib.root, raw, lib)
    spots = []
    for x in ri.walk():
        if x.node.spath_t() in touched and x.parent is not None:
            spots.append((x.path(), x.node))
        if x.val is None and x.node.kw not in ("anydata", "anyxml"):
            for c in x.node.dchildren():
                if c.spath_t() in touched and not x.group(c):
                    spots.append((x.path() + (c.iname(),), c))
    if not spots:
        return None
    path, node = rng.choice(spots)
    o = raw
    for s in path[:-1]:
        o = o[s]
    last = path[-1]
    if isinstance(last, int):
        if node.kw == "list" or rng.random() < 0.4:
            del o[last]
            if not o:
                return None
        else:
            o[last] = dgen.gen_value(node.type, rng)
    elif last in o and rng.random() < 0.35 and not iskey(node):
        del o[last]
    else:
        o[last] = dg.node(node)
    return raw, ("poke", path)


def conditions(ctx, rng, prof=None):
    st = Conditions(ctx, rng, prof or Profile(depth=rng.choice([2, 2, 3]), width=3, anydata=0.03, default=0.4, leafref=0.03, must=0,
                                              when=0.03, unique=0.02, submodule=0.6, uses=0.3, augment=3, augtmod=True, deviations=2,
                                              statusp=0, mandatory=0.08, patterns=0))
    if not st.ok or not st.done:
        return
    lib = st.lib
    dm = st.m.build(ctx.tmpdir(), rng)
    ctx.ev("models built")
    text = util.model_text(lib)
    seen = set()
    dg = dgen.DG(lib, rng, density=0.5, anydata=False)

    def doc(raw, what):
        k = cr(raw)
        if k in seen:
            return None
        seen.add(k)
        es = errors(lib, raw, rng)
        if es is None:
            ctx.ev("left out: order or types")
            return None
        v = util.judge(dm, raw, "all", "all")
        if v.ok == bool(es) and errors(lib, raw, rng, 40) is None:
            ctx.ev("left out: order or types")
            return None
        r = compare(ctx, lib, raw, v, "all", "all", what)
        ctx.case([raw, st.m.text()], True, {"document": str(raw)[:200], "condition": st.done[0][0].cond.arg})
        if r == "ok" and v.inst is not None:
            ri = rdata.decode(lib.root, raw, lib)
            want = rdata.with_defaults(ri)
            got = v.inst.add_defaults().raw_value()
            ctx.check(cr(got) == cr(want), "defaults", "defaults in use differ", got=got, want=want, document=raw, model=text)
        return r
    doc(st.raw, ["none"])
    for _ in range(14):
        raw, descs = st.raw, []
        for _ in range(rng.choice([1, 1, 2, 3])):
            try:
                x = poke(raw, lib, rng, dg, st.touched) if rng.random() < 0.7 else dgen.mutate(raw, lib.root, rng, dg)
            except (RawErr, AttributeError, TypeError, KeyError, IndexError, ValueError, dgen.NoValue):
                break
            if x is None or x[1] is None:
                break
            raw = x[0]
            descs.append(x[1])
        if descs:
            doc(raw, descs)


# -- references ---------------------------------------------------------------
def drop(v, names):
    if isinstance(v, dict):
        return {k: drop(x, names) for k, x in v.items() if k.rpartition(":")[2] not in names}
    if isinstance(v, list):
        return [drop(x, names) for x in v]
    return v


def dchain(n):
    out = []
    while n is not None and n.kw != "root":
        out.append(n)
        n = n.dparent()
    return out[::-1]


class Names:
    def __init__(self, tm, ns, rng):
        self.tm, self.ns, self.rng = tm, ns, rng

    def __call__(self, n):
        ps = [p for p, m in self.tm.prefixes.items() if m.name == n.ns]
        if n.ns == self.ns and (not ps or self.rng.random() < 0.6):
            return n.name
        if not ps:
            raise LookupError
        return self.rng.choice(ps) + ":" + n.name


def sch_rel(c, t, name, preds=None):
    """Relative schema path from c to t."""
    a, b = dchain(c), dchain(t)
    k = 0
    while k < min(len(a), len(b)) - 1 and a[k] is b[k]:
        k += 1
    if k and name.rng.random() < 0.2:
        k -= 1
    return "/".join([".."] * (len(a) - k) + steps_down(c, b[k:], name, preds))


def steps_down(c, nodes, name, preds):
    out = []
    for n in nodes:
        st = name(n)
        if preds and n.kw == "list" and n.keys:
            for kq in n.keys:
                if name.rng.random() < 0.5:
                    kn = n.dchild(*kq)
                    src = [x for p in dchain(c)[:-1] for x in p.dchildren() if x.kw == "leaf" and x is not c and
                           x.type.base == kn.type.base]
                    if src:
                        w = lambda: name.rng.choice(["", " ", "\n "])
                        st += f"[{w()}{name(kn)}{w()}={w()}current(){w()}/{sch_rel(c, name.rng.choice(src), name)}{w()}]"
        out.append(st)
    return out


class References:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.ok = False
        m = gen_model(rng, Profile(depth=rng.choice([2, 2, 3]), width=3, anydata=0.0, default=0.4, leafref=0, must=0, when=0.04,
                                   unique=0, submodule=0.6, uses=0.3, augment=3, augtmod=True, statusp=0, mandatory=0.05,
                                   patterns=0, unions=0.02))
        spots = [s for mod in m.mods for t in mod.texts() for s in t.stmt.walk() if s.kw in (
            "container", "list", "grouping", "case") or s.kw == "augment" and s.parent.kw != "uses" or
            s.kw in ("module", "submodule") and mod.implement]
        rng.shuffle(spots)
        self.refs = []
        for i, s in enumerate(spots[:rng.randint(3, 6)]):
            st = S(rng.choice(["leaf", "leaf", "leaf", "leaf-list"]), f"rf{i}", S("type", "string"))
            s.add(st)
            self.refs.append(st)
        names = {r.arg for r in self.refs}
        self.names = names
        lib = Model(m.mods).lib
        if bad_config(lib.root) or bad_defaults(lib.root):
            return
        self.lib = lib
        dg = dgen.DG(lib, rng, density=rng.choice([0.6, 0.8, 0.95]), anydata=False, minlist=rng.choice([0, 1, 2]))
        r = dg.valid("all")
        if r is None:
            ctx.ev("no valid document found")
            return
        self.raw = drop(r[0], names)
        self.carriers = {}
        for n in lib.root.walk():
            if n.name in names and n.kw in ("leaf", "leaf-list") and not inop(n):
                self.carriers.setdefault(n.name, []).append(n)
        self.touched = set()
        self.kind = {}
        for st in self.refs:
            for _ in range(8):
                if self.make(m, st):
                    break
            else:
                ctx.ev("plain leaf instead of a reference")
        self.m = Model(m.mods)
        self.lib = lib = self.m.lib
        full = {}

        def iid(root, s):
            k = id(root)
            if k not in full:
                full[k] = (root, rdata.decode(lib.root, rdata.with_defaults(root), lib))
            try:
                x = c08.resolve(full[k][1], c08.parse_iid(s), True)
            except c08.Bad:
                return None
            return x[1] if x[0] == "found" else None
        lib.iid = iid
        lib.iid_ok = iid_ok
        self.iid = iid
        self.ok = True

    def make(self, m, st):
        rng, lib = self.rng, self.lib
        cs = self.carriers.get(st.arg)
        if not cs:
            return True
        c = rng.choice(cs)
        tm = lib.tmod(st)
        ty = st.one("type")
        if rng.random() < 0.3:
            self.settype(st, S("type", "instance-identifier"), tm)
            self.kind[st.arg] = "iid"
            return True
        name = Names(tm, c.ns, rng)
        ts = [n for n in lib.root.walk() if n.kw in ("leaf", "leaf-list") and not inop(n) and n is not c and
              n.type.base not in ("empty", "union") and (n.config or not c.config)]
        near = [n for n in ts if dchain(n)[0] is dchain(c)[0]]
        if near and rng.random() < 0.5:
            ts = near
        if not ts:
            return False
        t = rng.choice(ts)
        if t.name in self.names and self.kind.get(t.name) != "leafref":
            return False
        try:
            if rng.random() < 0.45:
                path = "/" + "/".join(steps_down(c, dchain(t), name, True))
            else:
                path = sch_rel(c, t, name, True)
        except LookupError:
            return False
        new = S("type", "leafref", S("path", path))
        undo = self.settype(st, new, tm)
        try:
            l2 = Model(m.mods).lib
            tgts = {n.type.target_node.spath_t() for n in l2.root.walk() if n.name == st.arg and n.type is not None and not inop(n)}
        except (KeyError, AttributeError, RecursionError):
            undo()
            return False
        self.kind[st.arg] = "leafref"
        self.touched |= tgts
        if "[" in path:
            self.ctx.ev("leafref paths with predicates")
            for n in l2.root.walk():
                if n.kw == "leaf" and (n.name in path or iskey(n)):
                    self.touched.add(n.spath_t())
        if rng.random() < 0.4:
            sib = [x for x in t.dparent().dchildren() if x.kw == "leaf" and x is not t]
            ex = ["count(deref(.)) = 1", "deref(.)", "deref(.) = .", "count(deref(.)/..) < 2"]
            try:
                ex += [f"deref(.)/../{name(x)}" for x in sib] * 2
            except LookupError:
                pass
            st.add(S("must", rng.choice(ex), S("error-app-tag", "dtag")))
            self.touched |= {x.spath_t() for x in sib}
        return True

    def settype(self, st, ty, tm):
        rng = self.rng
        if rng.random() < 0.2:
            ty.add(S("require-instance", "false"))
            self.ctx.ev("require-instance false")
        elif rng.random() < 0.1:
            ty.add(S("require-instance", "true"))
        old = st.one("type")
        added = None
        if rng.random() < 0.35:
            added = S("typedef", "t" + st.arg, ty)
            top = st
            while top.parent is not None:
                top = top.parent
            top.add(added)
            ty = S("type", "t" + st.arg)
            self.ctx.ev("references by a typedef")
        st.subs = [ty if x is old else x for x in st.subs]
        ty.parent = st

        def undo():
            st.subs = [old if x is ty else x for x in st.subs]
            if added is not None:
                added.parent.subs.remove(added)
        return undo

    def value(self, c, tree):
        """A value of the reference c."""
        rng = self.rng
        k = self.kind.get(c.name)
        if k == "leafref":
            t = c.type.target_node
            while t.type.base == "leafref":
                t = t.type.target_node
            if t.type.base == "instance-identifier":
                k = "iid"
        if k == "iid":
            for _ in range(10):
                n = rng.choice(list(tree.walk()))
                if n.parent is None:
                    continue
                st = c08.steps_of(n, lambda e: c08.selector(e, rng) or ("i", e.key))
                if rng.random() < 0.25:
                    st = self.spoil(st)
                s = c08.iid(st, rng)
                if s is not None:
                    return s
            return "/m-a:nope"
        if k == "leafref":
            xs = [n for n in tree.walk() if n.node is t]
            if xs and rng.random() < 0.8:
                return rdata.to_json(*rng.choice(xs).val)
            try:
                return dgen.gen_value(t.type, rng)
            except dgen.NoValue:
                pass
        return "x"

    def spoil(self, st):
        rng = self.rng
        i = rng.randrange(len(st))
        s = st[i]
        if s[0] == "i":
            s = ("i", s[1] + rng.choice([1, 5]))
        elif s[0] == "v":
            s = ("v", rng.choice(["", "1", "true", "nope"]))
        elif s[0] == "k":
            s = ("k", {k: rng.choice(["", "1", "true", "nope", v]) for k, v in s[1].items()})
        elif i:
            s = ("m", s[1], rng.choice(["nope", "l1"]))
        return st[:i] + [s] + st[i + 1:]


def iid_ok(s):
    try:
        st = c08.parse_iid(s)
    except c08.Bad:
        return False
    return not st or st[0][1] is not None


def flat(v):
    """The same for different spellings of an instance identifier."""
    if not (isinstance(v, str) and v.startswith("/")):
        return v
    try:
        return [(s[0],) + tuple(sorted((k[-1], x) for k, x in s[1].items()) if s[0] == "k" else s[-1:]) for s in c08.parse_iid(v)]
    except c08.Bad:
        return v


def references(ctx, rng):
    st = References(ctx, rng)
    if not st.ok:
        return
    lib = st.lib
    carriers = {}
    for n in lib.root.walk():
        if n.name in st.names and n.kw in ("leaf", "leaf-list") and not inop(n):
            carriers.setdefault(n.dparent().spath_t() if n.dparent().kw != "root" else (), []).append(n)
    if not carriers:
        return
    dm = st.m.build(ctx.tmpdir(), rng)
    ctx.ev("models built")
    text = util.model_text(lib)
    dg = dgen.DG(lib, rng, density=0.5, anydata=False)
    seen = set()
    base = st.raw
    for i in range(14):
        raw, what = base, ["none"]
        try:
            for _ in range(rng.choice([0, 0, 1, 2]) if i else 0):
                x = poke(raw, lib, rng, dg, st.touched) if rng.random() < 0.8 else dgen.mutate(raw, lib.root, rng, dg)
                if x and x[1]:
                    raw = drop(x[0], st.names) if rng.random() < 0.5 or i < 3 else x[0]
                    what.append(x[1])
            ri = rdata.decode(lib.root, raw, lib)
            tree = rdata.decode(lib.root, rdata.with_defaults(ri), lib)
        except (RawErr, AttributeError, TypeError, KeyError, IndexError, ValueError, dgen.NoValue):
            continue
        raw = copy.deepcopy(raw)
        p = rng.choice([0.3, 0.7, 1])
        for x in ri.walk():
            key = x.node.spath_t() if x.parent is not None else ()
            if x.val is not None:
                continue
            o = raw
            for s in x.path():
                o = o[s]
            for c in carriers.get(key, ()):
                if c.parent.kw == "case" and not any(k.node in c.parent.dchildren() for k in x.kids):
                    continue
                if rng.random() < p and (i == 0 or c.iname() not in o):
                    if c.kw == "leaf":
                        o[c.iname()] = st.value(c, tree)
                    else:
                        vs = [st.value(c, tree) for _ in range(rng.randint(1, 3))]
                        o[c.iname()] = [v for i, v in enumerate(vs) if flat(v) not in [flat(w) for w in vs[:i]]]
        if rng.random() < 0.4 and i > 2:
            base = raw
        k = cr(raw)
        if k in seen:
            continue
        seen.add(k)
        try:
            rdata.decode(lib.root, raw, lib)
            es = errors(lib, raw, rng)
        except RawErr:
            es = "raw"
        if es is None:
            ctx.ev("left out: order or types")
            continue
        v = util.judge(dm, raw, "all", "all")
        r = compare(ctx, lib, raw, v, "all", "all", what)
        ctx.case([raw, st.m.text()], raw != st.raw, {"document": str(raw)[:300]})
        if v.inst is not None and r in ("ok", "bad") and es != "raw":
            derefs(ctx, rng, st, raw, v.inst, text)


def derefs(ctx, rng, st, raw, inst, text):
    """deref() of every reference."""
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    lib = st.lib
    ri = rdata.decode(lib.root, raw, lib)
    tree = rdata.decode(lib.root, rdata.with_defaults(ri), lib)
    expr = XPathParser("deref(.)", SchemaContext(inst.schema_node.schema_data, "m-a", ("m-a", gen_rev()))).parse()
    for x in tree.walk():
        k = st.kind.get(x.node.name) if x.val is not None else None
        if k is None or rng.random() < 0.5:
            continue
        if k == "iid":
            t = st.iid(ri, x.xp_string())
            want = [] if t is None else [t.path()]
        else:
            want = sorted(n.path() for n in rdata.leafref_targets(x, lib))
        node = inst
        for s in x.path():
            node = node[s]
        got = sorted(tuple(n.path) for n in expr.evaluate(node))
        ctx.ev("deref")
        if want:
            ctx.ev("deref of existing nodes")
        if any(p not in {n.path() for n in ri.walk()} for p in want):
            ctx.ev("deref of default nodes")
        ctx.check(got == want, "deref", f"deref() of {'/'.join(map(str, x.path()))} = {x.xp_string()!r} gives {got}, expected {want}",
                  document=raw, model=text)


def gen_rev():
    from vf.gen import REV
    return REV


GROUPS = [Group("conditions", conditions, 300, 20000), Group("references", references, 300, 20000)]
REQUIRE = {"deref of existing nodes": 1500, "deref of default nodes": 80, "expected error leafref": 1500, "expected error must": 800,
           "expected error not-allowed": 500, "expected valid": 1000, "leafref paths with predicates": 30, "must on container": 80,
           "must on deviation": 30, "must on leaf": 150, "must on refine": 25, "must on list": 15, "must on leaf-list": 15,
           "when on augment": 70, "when on case": 90, "when on choice": 25, "when on container": 90, "when on leaf": 200,
           "when on leaf-list": 30, "when on list": 40, "when on uses": 140}
