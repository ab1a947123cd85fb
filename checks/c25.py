"""C25: schema nodes can be found, listed and described."""
import json
import random
from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import Profile

PROPERTY = "C25"
RULE = ("random module sets; every node of the reference schema is looked up by its schema path and, if it is a data "
        "node, by its data path; paths that no node has (other namespaces, left-out and inserted components, "
        "components below leafs, repeated or missing prefixes) must not find anything; every line of the "
        "ASCII tree, with and without types and validation counts, is compared with the reference; one evaluation = one "
        "path looked up or one line; non-trivial if the path has at least two components or the line shows "
        "some property")
ASSUMPTIONS = ["the reference compiler implements RFC 7950 (vf/rcomp.py)",
               "data paths are those of data nodes outside operations and notifications"]
OPS = ("rpc", "action", "notification")
DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml")


def up(n):
    while n is not None:
        yield n
        n = n.parent


def text(route):
    out, prev = "", None
    for ns, nm in route:
        out += "/" + (nm if ns == prev else f"{ns}:{nm}")
        prev = ns
    return out or "/"


def droute(n):
    """Names of the data nodes from the root to n."""
    return [(x.ns, x.name) for x in list(up(n))[::-1] if x.kw in DATA]


def status(n):
    for x in up(n):
        if x.status:
            return x.status
        if x.kw in OPS:
            break
    return "current"


# -- ASCII tree ---------------------------------------------------------------
def config(n):
    return n.config and not any(x.kw in OPS for x in up(n))


def label(n, types, keep=()):
    st = status(n)
    r = {"current": "+", "deprecated": "x", "obsolete": "o"}[st] + "--"
    nm = n.name if n.parent.kw != "root" and n.parent.ns == n.ns else f"{n.ns}:{n.name}"
    if n.kw in ("rpc", "action"):
        return r + "-x " + nm
    if n.kw == "notification":
        return r + "-n " + nm
    if n.kw == "case":
        return f"{r}:({nm})"
    r += "rw" if config(n) else "ro"
    if n.kw == "choice":
        return f"{r} ({nm})" + ("" if n.mandatory else "?")
    r += " " + nm
    if n.kw == "container" and n.presence:
        r += "!"
    if n.kw in ("list", "leaf-list"):
        r += "#" if n.user else "*"
    if n.kw == "list" and n.keys:
        r += " [" + " ".join(k for _, k in n.keys) + "]"
    if n.kw in ("leaf", "anydata", "anyxml") and not n.mandatory:
        r += "?"
    if types and n.kw in ("leaf", "leaf-list"):
        t = n.type
        r += f" <{t.name}({t.base})>" if getattr(t, "name", None) else f" <{t.base}>"
    return r


def tree(n, indent, types, counts, out):
    cs = sorted(n.children, key=lambda c: (c.name, c.ns)) if n.kw not in ("leaf", "leaf-list") else []
    for i, c in enumerate(cs):
        s = ""
        if counts is not None and c.kw not in ("choice", "case"):
            s = f" {{{counts.get(c, 0)}}}"
        out.append((indent + label(c, types) + s, c))
        tree(c, indent + ("   " if i == len(cs) - 1 else "|  "), types, counts, out)
    return out


def lines(ctx, m, dm, what, want, got):
    got = got.splitlines()
    want = [w for w, _ in want]
    ctx.ev("tree lines " + what, len(want))
    for w in want:
        ctx.case([w, what, m.text()], not w.endswith(("rw", "ro")))
    if want != got:
        k = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        ctx.fail("ascii-tree-" + what,
                 f"line {k} should be {want[k:k+1]}, is {got[k:k+1]} ({len(want)} and {len(got)} lines)",
                 model=util.model_text(m.lib))


# -- looking nodes up -----------------------------------------------------------
class Look:
    def __init__(self, ctx, rng, m, dm):
        self.ctx, self.rng, self.m, self.dm = ctx, rng, m, dm
        self.root = m.lib.root
        self.det = {"model": util.model_text(m.lib)}
        self.nodes = [n for n in self.root.walk() if n is not self.root]
        self.byspath = {tuple(n.spath()): n for n in self.nodes}
        self.bydpath = {tuple(droute(n)): n for n in self.nodes
                        if n.kw in DATA and not any(x.kw in OPS for x in up(n))}
        self.sn = {}

    def bad(self, mech, msg):
        self.ctx.fail(mech, msg, **self.det)

    def same(self, sn, n):
        return sn is not None and (sn.name, sn.ns) == (n.name, n.ns) and \
            type(sn).__name__ == {"leaf-list": "LeafListNode", "rpc": "RpcActionNode",
                                  "action": "RpcActionNode"}.get(n.kw, n.kw.capitalize() + "Node")

    def find_all(self):
        dm = self.dm
        if dm.get_schema_node("/") is not dm.schema:
            self.bad("root", "get_schema_node('/') is not the root")
        if dm.get_data_node("/") is not dm.schema:
            self.bad("root", "get_data_node('/') is not the root")
        for r, n in self.byspath.items():
            p = text(r)
            sn = dm.get_schema_node(p)
            self.ctx.ev("schema paths")
            self.ctx.case(["s", p, self.m.text()], len(r) > 1)
            if not self.same(sn, n):
                self.bad("schema-path", f"{p} should be {n}, found {sn and sn.qual_name} {sn}")
                continue
            if any(sn is x for x in self.sn.values()):
                self.bad("schema-path", f"{p} is the same node as another path")
            self.sn[n] = sn
            q = sn.parent
            while q is not None and q.name is None and q.parent is not None:
                q = q.parent
            want = dm.schema if n.parent is self.root else self.sn.get(n.parent)
            if want is not None and q is not want:
                self.bad("parent", f"parent of {p} should be {want.qual_name}, is {q and q.qual_name}")
            if sn.schema_root() is not dm.schema:
                self.bad("schema-root", f"schema root of {p}")
            # children of the node
            par = dm.schema if n.parent is self.root else want
            if par is not None and par.get_child(n.name, n.ns) is not sn:
                self.bad("get-child", f"{p}: parent.get_child gives {par.get_child(n.name, n.ns)}")
        for r, n in self.bydpath.items():
            p = text(r)
            sn = dm.get_data_node(p)
            self.ctx.ev("data paths")
            self.ctx.case(["d", p, self.m.text()], len(r) > 1)
            if sn is None or n in self.sn and sn is not self.sn[n]:
                self.bad("data-path", f"{p} should be {n}, found {sn and sn.qual_name} {sn}")
                continue
            if sn.data_path() != p:
                self.bad("data_path", f"{p}: data_path() is {sn.data_path()}")
            if sn.iname() != n.iname():
                self.bad("iname", f"{p}: iname() should be {n.iname()}, is {sn.iname()}")
            dp = sn.data_parent()
            want = None if len(r) == 1 else self.sn.get(self.bydpath[r[:-1]])
            if dp is not want:
                self.bad("data-parent", f"{p}: data parent is {dp and dp.qual_name}")
            par = want or dm.schema
            if par.get_data_child(n.name, n.ns) is not sn:
                self.bad("get-data-child", f"{p}: get_data_child gives "
                         f"{par.get_data_child(n.name, n.ns)}")
        for n in [self.root] + [n for n in self.bydpath.values()]:
            sn = dm.schema if n is self.root else self.sn.get(n)
            if sn is None:
                continue
            if n.kw in ("root", "container", "list"):
                want = sorted((c.ns, c.name) for c in n.dchildren())
                got = sorted((c.ns, c.name) for c in sn.data_children())
                self.ctx.ev("data children")
                if want != got:
                    self.bad("data-children", f"{text(n.spath())}: {got}, should be {want}")
            want = sorted(text(droute(x)) for x in roots(n))
            got = sorted(sn.state_roots())
            self.ctx.ev("state roots", len(want))
            if want != got:
                self.bad("state-roots", f"{text(n.spath()) if n.parent else '/'}: {got}, should be {want}")

    def lookup(self, what, f, table, route, p):
        from yangson.exceptions import InvalidSchemaPath
        want = table.get(tuple(route)) if route is not None else "invalid"
        try:
            sn = f(p)
        except InvalidSchemaPath:
            sn = "invalid"
        if want == "invalid" or sn == "invalid":
            ok = want == sn
        elif want is None:
            ok = sn is None
        else:
            ok = sn is not None and self.same(sn, want)
        self.ctx.ev("wrong paths" if want is None else
                    "malformed paths" if want == "invalid" else "right paths")
        self.ctx.case([what, p, self.m.text()], True)
        if not ok:
            self.bad(what + "-by-other", f"{p}: should be {want}, found {sn}")

    def others(self, k):
        rng = self.rng
        names = [(n.ns, n.name) for n in self.nodes]
        ns = [mo.name for mo in self.m.lib.mods] + ["zz"]
        sp, dp = list(self.byspath), list(self.bydpath)
        for _ in range(k):
            for what, f, table, pool in (("schema-path", self.dm.get_schema_node, self.byspath, sp),
                                         ("data-path", self.dm.get_data_node, self.bydpath, dp)):
                r = list(rng.choice(sp if rng.random() < 0.3 else pool))
                i = rng.randrange(len(r))
                x = rng.random()
                if x < 0.2:
                    r[i] = (rng.choice(ns), r[i][1])
                elif x < 0.35:
                    r[i] = (r[i][0], rng.choice(names)[1])
                elif x < 0.5:
                    r.append(rng.choice(names))
                elif x < 0.6:
                    r.insert(i, rng.choice(names))
                elif x < 0.7:
                    r.pop(i)
                elif x < 0.8:
                    r = r + list(rng.choice(pool))[1:]
                elif x < 0.9 and len(r) > 1:     # a sibling below a leaf or another node
                    q = rng.choice(pool)
                    if q[:-1] == tuple(r[:-1]) or rng.random() < 0.5:
                        r.append(q[-1])
                    else:
                        r[-1] = q[-1]
                if not r:
                    continue
                p = text(r)
                if rng.random() < 0.1:
                    j = rng.randrange(len(r)) if r else 0
                    if r and (j == 0 or r[j][0] == r[j - 1][0]):
                        # prefix repeated, or missing at the start
                        if j == 0:
                            p = "/" + p.partition(":")[2]
                            if ":" in p.split("/")[1]:
                                continue
                        else:
                            c = p.split("/")
                            c[j + 1] = f"{r[j][0]}:{r[j][1]}"
                            p = "/".join(c)
                        r = None
                self.lookup(what, f, table, r, p)


def roots(n):
    if n.kw in DATA and not n.config:
        return [n]
    out = []
    for c in n.dchildren() if n.kw in ("root", "container", "list") else ():
        out.extend(roots(c))
    return out


def case(ctx, rng, prof=None):
    prof = prof or Profile(
        depth=rng.choice([2, 3, 4]), deviations=rng.choice([0, 3, 8]), when=rng.choice([0.1, 0.3]),
        augment=rng.choice([1, 3, 6]), uses=rng.choice([0.1, 0.3]), choice=0.25, state=0.2,
        iffeature=rng.choice([0.05, 0.2]), rpc=0.7, ops=0.3, opsub=0.3, statusp=rng.choice([0, 0.15]),
        rich=True, submodule=0.6, must=0.02, unique=0.05, anydata=0.08)
    m, dm = util.model(ctx, rng, prof)
    lk = Look(ctx, rng, m, dm)
    lk.find_all()
    lk.others(60)
    root = m.lib.root
    lines(ctx, m, dm, "types", tree(root, "", True, None, []), dm.ascii_tree())
    lines(ctx, m, dm, "no-types", tree(root, "", False, None, []), dm.ascii_tree(no_types=True))
    counts(ctx, rng, m, dm)


def counts(ctx, rng, m, dm):
    """Validation counts accumulate over validated instances."""
    cnt = {}
    for _ in range(rng.choice([1, 2, 3])):
        dg = dgen.DG(m.lib, rng, state=True, density=0.6)
        r = dg.valid("all")
        if r is None:
            ctx.ev("no valid document found")
            continue
        raw, ri = r
        inst = dm.from_raw(raw)
        if rng.random() < 0.3:
            dm.clear_val_counters()
            cnt = {}
        inst.validate(util.scope_enum("all"), util.ctype_enum("all"))
        for x in ri.walk():
            if x.parent is not None:
                cnt[x.node] = cnt.get(x.node, 0) + 1
        ctx.ev("documents validated")
    from yangson.exceptions import ValidationError
    for op in m.lib.root.children:
        if op.kw not in ("rpc", "notification"):
            continue
        dg = dgen.DG(m.lib, rng, density=0.8)
        raw = {f"{op.ns}:{io.kw}": dg.obj(io) for io in op.children
               if io.kw in ("input", "output")} if op.kw == "rpc" else dg.obj(op)
        try:
            ri = rdata.decode(op, raw, m.lib)
            rdata.encode(ri)
        except rdata.RawErr:
            continue
        inst = dm.from_raw(raw, f"{op.ns}:{op.name}")
        try:
            inst.validate(util.scope_enum("all"), util.ctype_enum("all"))
        except ValidationError:
            dm.clear_val_counters()
            cnt = {}
            continue
        ctx.ev("operations validated")
        for x in ri.walk():
            cnt[x.node] = cnt.get(x.node, 0) + 1
    nt = rng.random() < 0.5
    lines(ctx, m, dm, "counts", tree(m.lib.root, "", not nt, cnt, []),
          dm.ascii_tree(no_types=nt, val_count=True))
    dm.clear_val_counters()
    lines(ctx, m, dm, "cleared", tree(m.lib.root, "", True, {}, []),
          dm.ascii_tree(val_count=True))


GROUPS = [Group("schema", case, 200, 4000)]
REQUIRE = {"schema paths": 5000, "data paths": 3000, "wrong paths": 5000, "malformed paths": 300,
           "right paths": 300, "tree lines types": 5000, "tree lines counts": 5000,
           "state roots": 300, "documents validated": 100, "operations validated": 50}
