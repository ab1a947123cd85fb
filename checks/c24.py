"""C24: data of RPCs, actions and notifications."""
import copy
import xml.etree.ElementTree as ET

from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import Profile
from vf.hist import cr
from vf.rdata import RawErr
from checks.c04 import compare
from checks.c09 import marks, strip
from checks.c16 import Codec, Odd

PROPERTY = "C24"
RULE = ("random models with RPCs, actions (in containers, lists, choices, augments) and notifications at the top level and inside "
        "data; random contents and 1-3 mutations of them (also members of the other part, of the surrounding data, of other "
        "operations); one evaluation = one content whose verdict, defaults and export are compared with the reference; "
        "non-trivial if it has at least two members")
ASSUMPTIONS = ["the accessible tree of conditions is the content of the operation (Yangson evaluates it without the datastore)",
               "data of operations are validated with content type all or nonconfig"]


def schema_path(node):
    ss = []
    while node.kw != "root":
        ss.append(node)
        node = node.parent
    out, ns = "", None
    for x in reversed(ss):
        out += "/" + (x.name if x.ns == ns else f"{x.ns}:{x.name}")
        ns = x.ns
    return out


class Op:
    """One operation and the ways to make instances of it."""

    def __init__(self, dm, node):
        self.dm, self.node = dm, node
        self.top = node.parent.kw == "root"
        self.sn = dm.get_schema_node(schema_path(node))

    def make(self, raw, how):
        from yangson.instance import RootNode
        if how == "model":
            return self.dm.from_raw(raw, f"{self.node.ns}:{self.node.name}")
        v = self.sn.from_raw(raw)
        return RootNode(v, self.sn, self.dm.schema_data, v.timestamp)

    def judge(self, raw, ctype, how, scope="all"):
        from yangson.exceptions import RawDataError
        try:
            inst = self.make(raw, how)
        except RawDataError as e:
            return util.Verdict(False, type(e).__name__, self.unqualify(util.decode_path(e.path)), e)
        v = util.judge(self.dm, None, scope, ctype, inst=inst)
        v.path = self.unqualify(v.path) if v.path else v.path
        return v

    def qualify(self, v):
        """Members as they are named by the instance that is made."""
        if self.top or self.node.kw != "notification":
            return {k if ":" in k else f"{self.node.ns}:{k}": x for k, x in v.items()}
        p = self.node.parent
        while p.kw in ("choice", "case"):
            p = p.parent
        res = {}
        for k, x in v.items():
            if ":" not in k and p.ns != self.node.ns:
                k = f"{self.node.ns}:{k}"
            elif k.startswith(p.ns + ":"):
                k = k[len(p.ns) + 1:]
            res[k] = x
        return res

    def unqualify(self, path):
        """The reference names members of a notification by its namespace."""
        if self.node.kw == "notification" and path:
            a = str(path[0])
            if ":" not in a and not self.top:
                p = self.node.parent
                while p.kw in ("choice", "case"):
                    p = p.parent
                a = f"{p.ns}:{a}"
            if a.startswith(self.node.ns + ":"):
                a = a[len(self.node.ns) + 1:]
            return (a, *path[1:])
        if path:
            for c in parts(self.node):
                if str(path[0]) == f"{c.ns}:{c.name}":
                    return (c.iname(), *path[1:])
        return path


def parts(node):
    return [c for c in node.children if c.kw in ("input", "output")]


def content(op, dg, lib, rng, empty=False):
    """Valid content, or None."""
    node = op.node
    if node.kw == "notification":
        raw = dg.obj(node)
        fix = raw
    else:
        io = parts(node)
        if not io:
            return {}
        ps = [rng.choice(io)]
        if rng.random() < 0.2:
            ps = io
        raw = {f"{node.ns}:{p.kw}": dg.obj(p) for p in ps}
    for _ in range(25):
        try:
            ri = rdata.decode(node, raw, lib)
        except RawErr as e:
            if not dg.drop(raw, e.path):
                return None
            continue
        errs = [e for e in rdata.validate(ri, lib, "all")]
        errs = [(e[0], tuple(x for x in e[1]), *e[2:]) for e in errs]
        if not errs:
            return raw
        if not dg.repair(raw, ri, errs):
            return None
    return None


def twice(v):
    """Some object has a member in both spellings."""
    if isinstance(v, dict):
        return any(":" in k and k.rpartition(":")[2] in v for k in v) or any(map(twice, v.values()))
    return isinstance(v, list) and any(map(twice, v))


def mutate(op, raw, lib, rng, dg, others):
    """A changed content and what was done."""
    node = op.node
    x = rng.random()
    raw = copy.deepcopy(raw)
    if node.kw == "notification":
        sub, root, put = raw, node, lambda v: v
    else:
        ks = [k for k in raw]
        if not ks:
            return None
        k = rng.choice(ks)
        root = [p for p in parts(node) if p.kw == k.rpartition(":")[2]][0]
        sub = raw[k]

        def put(v):
            raw[k] = v
            return raw
    if x < 0.7:
        try:
            new, d = dgen.mutate(sub, root, rng, dg)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError):
            return None
        return None if d is None else (put(new), d)
    # a member that belongs somewhere else
    cands = []
    for p in parts(node):
        if p is not root:
            cands += p.dchildren()
    if op.node.parent.kw != "root":
        cands += [c for c in op.node.parent.children if c.kw in ("leaf", "container", "leaf-list", "list")]
    for o in others:
        cands += [c for p in parts(o) or [o] for c in p.dchildren()]
    if not cands:
        return None
    c = rng.choice(cands)
    try:
        v = dg.node(c)
    except dgen.NoValue:
        return None
    nm = rng.choice([c.iname(), f"{c.ns}:{c.name}"])
    if {c.name, c.iname(), f"{c.ns}:{c.name}"} & set(sub):
        return None
    if node.kw != "notification" and rng.random() < 0.3:
        raw[nm] = v
        return raw, ("foreign member beside", nm)
    sub = dict(sub)
    sub[nm] = v
    return put(sub), ("foreign member", nm)


def case(ctx, rng, prof=None):
    m, dm = util.model(ctx, rng, prof or Profile(ops=0.4, rpc=1, opsub=0.5, default=0.4, choice=0.2, anydata=0.05))
    lib = m.lib
    ops = [n for n in lib.root.walk() if n.kw in ("rpc", "action", "notification")]
    rng.shuffle(ops)
    for node in ops[:6]:
        op = Op(dm, node)
        if op.sn is None:
            ctx.fail("no-schema-node", f"no schema node {schema_path(node)}", model=util.model_text(lib))
            continue
        ctx.ev("operations of kind " + node.kw)
        for _ in range(2):
            one(ctx, rng, dm, lib, op, [o for o in ops if o is not node])
    inside(ctx, rng, dm, lib, ops)


def one(ctx, rng, dm, lib, op, others):
    dg = dgen.DG(lib, rng, density=rng.choice([0.4, 0.6, 0.8, 1]), qualify=rng.choice([0, 0, 0.3]))
    raw = content(op, dg, lib, rng)
    if raw is None:
        ctx.ev("no valid content found")
        return
    how = "model" if op.top and rng.random() < 0.6 else "node"
    ct = rng.choice(["all", "all", "nonconfig"])
    det = dict(document=raw, operation=schema_path(op.node), how=how, ctype=ct, model=util.model_text(lib))
    v = op.judge(raw, ct, how)
    compare(ctx, lib, raw, v, "all", "all", ["none"], op.node)
    ctx.case([schema_path(op.node), raw, ct], sum(map(len, [raw] + [x for x in raw.values() if isinstance(x, dict)])) >= 2,
             str(raw)[:300])
    if v.inst is not None:
        ri = rdata.decode(op.node, raw, lib)
        can = op.qualify(rdata.encode(ri))
        got = v.inst.raw_value()
        ctx.check(cr(got) == cr(can), "export", "exported content differs", got=got, want=can, **det)
        defaults(ctx, rng, lib, op, v.inst, ri, det)
        if v.ok:
            for sc in ("syntax", "semantics"):
                w = util.judge(dm, None, sc, ct, inst=v.inst)
                ctx.check(w.ok, "scope-" + sc, f"valid in scope all, rejected in scope {sc}: {w}", **det)
    for _ in range(6):
        r = raw
        descs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            x = mutate(op, r, lib, rng, dg, others)
            if x is None:
                break
            try:
                rdata.decode(op.node, x[0], lib)
                r = x[0]
                descs.append(x[1])
            except RawErr:
                r = x[0]
                descs.append(x[1])
                break
        if not descs or (dg.qualify and twice(r)):
            continue
        w = op.judge(r, ct, how)
        res = compare(ctx, lib, r, w, "all", "all", descs, op.node)
        ctx.case([schema_path(op.node), r, ct], bool(r))
        if descs[0][0].startswith("foreign"):
            ctx.ev("foreign members")
        if res == "ok" and w.inst is not None:
            ri = rdata.decode(op.node, r, lib)
            can = op.qualify(rdata.encode(ri))
            got = w.inst.raw_value()
            ctx.check(cr(got) == cr(can), "export", "exported content differs", got=got, want=can, **{**det, "document": r})
            defaults(ctx, rng, lib, op, w.inst, ri, {**det, "document": r})


def defaults(ctx, rng, lib, op, inst, ri, det):
    for ct in (None, "all", "nonconfig"):
        want = op.qualify(rdata.with_defaults(ri, "all"))
        w = inst.add_defaults(None if ct is None else util.ctype_enum(ct))
        got = w.raw_value()
        ctx.ev("defaults added", len(str(want)) > len(str(rdata.encode(ri))) and 1 or 0)
        ctx.check(cr(got) == cr(want), "defaults", f"content with defaults (content type {ct}) differs", got=got, want=want, **det)
        ctx.check(cr(w.add_defaults().raw_value()) == cr(got), "defaults-again", "defaults are added twice", **det)
    t = inst.add_defaults(tag=True).raw_value()
    ctx.check(cr(strip(t)) == cr(strip(want)), "defaults-tagged", "tagged content differs", got=t, want=want, **det)
    mk = []
    marks(op.qualify(rdata.encode(ri)), t, mk)
    for p, new, mark in mk:
        ctx.check(new == mark, "wrong-mark", f"{p}: added={new}, marked as default={mark}", tagged=t, **det)


def known(node):
    return {x for c in node.dchildren() for x in (c.name, c.iname(), f"{c.ns}:{c.name}")}


def inside(ctx, rng, dm, lib, ops):
    """Operations are no members of data."""
    dg = dgen.DG(lib, rng, density=0.8)
    r = dg.valid("all")
    if r is None:
        return
    raw, ri = r
    inside_xml(ctx, rng, dm, lib, raw, ri)
    rng.shuffle(ops)
    for x in ri.walk():
        if x.val is not None or x.parent is None:
            continue
        for c in x.node.children:
            if c.kw not in ("action", "notification") or rng.random() < 0.5:
                continue
            doc = copy.deepcopy(raw)
            o = doc
            for s in x.path():
                o = o[s]
            v = {}
            if c.kw == "notification":
                v = dg.obj(c)
            elif parts(c):
                p = rng.choice(parts(c))
                v = {p.kw: dg.obj(p)}
            nm = c.iname() if c.kw == "notification" else c.name if c.ns == x.node.ns else f"{c.ns}:{c.name}"
            if v and rng.random() < 0.4:        # a piece of it
                w = v if c.kw == "notification" else rng.choice([v, *v.values()])
                w = {k: y for k, y in w.items() if k not in known(x.node)}
                if not w:
                    continue
                nm = rng.choice(list(w))
                v = w[nm]
                nm = nm if ":" in nm else f"{c.ns}:{nm}"
                ctx.ev("members of operations in data")
            else:
                nm = rng.choice([nm, f"{c.ns}:{c.name}"])
            o[nm] = v
            j = util.judge(dm, doc, "all", "all")
            ctx.ev("operations as members of data")
            ctx.case(["in", doc], True)
            ctx.check(not j.ok, "accepted-in-data", f"{nm} of {c.kw} {c.name} is accepted as a member of data", document=doc,
                      model=util.model_text(lib))
            if not j.ok:
                ctx.check(j.kind == "RawMemberError", "read-in-data",
                          f"{nm} of {c.kw} {c.name} in data is reported as {j}", document=doc, model=util.model_text(lib))


def element(node, v, cx):
    """XML element with JSON content `v` of a schema node (text by and large)."""
    e = ET.Element(f"{{{cx.uri[node.ns]}}}{node.name}")
    if isinstance(v, dict):
        kids = {c.iname(): c for c in node.dchildren()} if node.kw not in ("rpc", "action") else {c.kw: c for c in parts(node)}
        for k, y in v.items():
            c = kids.get(k)
            for z in y if isinstance(y, list) and y != [None] else [y]:
                if c is not None:
                    e.append(element(c, z, cx))
    elif not isinstance(v, list):
        e.text = str(v).lower() if isinstance(v, bool) else str(v)
    return e


def inside_xml(ctx, rng, dm, lib, raw, ri):
    """Operations are no elements of data in XML."""
    from yangson.exceptions import RawMemberError, YangsonException
    from yangson.xmlparser import XMLParser
    cx = Codec(lib, rng)
    if any(n.kw in ("anydata", "anyxml") for n in lib.root.walk()):
        return
    for x in ri.walk():
        x.present_arrays = set()
    try:
        text = cx.write(ri.node, "data", None, ri, {"top": True, "reuse": 1})
    except Odd:
        return

    def read(t):
        try:
            dm.from_xml(XMLParser(t).root)
        except YangsonException as e:
            return e
    if read(text) is not None:
        ctx.ev("XML documents not read")
        return
    dg = dgen.DG(lib, rng, density=0.8)
    for x in ri.walk():
        if x.val is not None or x.parent is None:
            continue
        for c in x.node.children:
            if c.kw not in ("action", "notification"):
                continue
            doc = ET.fromstring(text)
            e, chain, y = doc, [], x
            while y.parent is not None:
                chain.append((f"{{{cx.uri[y.node.ns]}}}{y.node.name}", [k for k in y.parent.kids if k.node is y.node].index(y)))
                y = y.parent
            for tag, i in reversed(chain):
                e = [k for k in e if k.tag == tag][i]
            v = {}
            if rng.random() < 0.4:
                if c.kw == "notification":
                    v = dg.obj(c)
                elif parts(c):
                    p = rng.choice(parts(c))
                    v = {p.kw: dg.obj(p)}
            e.append(element(c, v, cx))
            t = ET.tostring(doc, encoding="unicode")
            r = read(t)
            ctx.ev("operations as elements of data")
            ctx.case(["inx", t], True)
            if isinstance(r, RawMemberError):
                ctx.ev("operations as elements of data reported")
            ctx.check(r is not None, "accepted-in-xml", f"{c.kw} {c.name} is accepted as an element of data", document=t,
                      model=util.model_text(lib))


def flat(ctx, rng):
    case(ctx, rng, Profile(depth=1, width=2, ops=0.9, rpc=1, opsub=0.7, submodule=0.6, when=0.3, must=0.3, choice=0.35, mandatory=0.4, unique=0.6,
                           augment=3, augtmod=True, deviations=2, leafref=0.2, unions=0.2, default=0.5))


GROUPS = [Group("rich", case, 250, 4000), Group("flat", flat, 350, 6000)]
REQUIRE = {"operations as elements of data reported": 60, "defaults added": 5000, "foreign members": 1500, "operations as members of data": 80, "operations of kind action": 180,
           "operations of kind notification": 200, "operations of kind rpc": 110, "expected valid": 2000,
           "expected raw error member": 2500, "members of operations in data": 10}
