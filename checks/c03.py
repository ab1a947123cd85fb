"""C03: JSON round trip of instance data."""
import copy
import json
import os

from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import Profile, gen_model
from vf.hist import cr

PROPERTY = "C03"
RULE = ("random models; documents with randomly qualified member names, non-canonical scalars, empty arrays and objects, "
        "anydata and metadata annotations at every place, plus rpc, action and notification contents; exported as a whole, "
        "from every inner node and through filters; one evaluation = one document or node; non-trivial if it has "
        "at least three members and differs from its canonical form or carries annotations")
ASSUMPTIONS = ["member order is not significant", "one annotation object per data node, as RFC 7952 encodes it"]

META = """module ietf-yang-metadata {
  namespace "urn:ietf:params:xml:ns:yang:ietf-yang-metadata"; prefix md;
  revision 2016-08-05;
  extension annotation { argument name; }
}
"""
ANN = """module m-z {
  yang-version 1.1; namespace "urn:vf:m-z"; prefix z;
  import ietf-yang-metadata { prefix md; }
  revision 2024-01-01;
  identity base-id; identity one-id { base base-id; }
  typedef small { type int8 { range "1..9"; } }
  md:annotation num { type small; description "a number"; }
  md:annotation big { type int64; }
  md:annotation text { type string; }
  md:annotation flag { type boolean; }
  md:annotation dec { type decimal64 { fraction-digits 3; } }
  md:annotation id { type identityref { base base-id; } }
  md:annotation mix { type union { type boolean; type string; } }
  md:annotation void { type empty; }
  md:annotation bits { type bits { bit b0; bit b1; bit b2; } }
}
"""
# name, JSON value, canonical JSON value
ANNS = [("num", 1, 1), ("num", 9, 9), ("big", "-5", "-5"), ("big", "0", "0"), ("text", "", ""), ("text", "a/b~c", "a/b~c"),
        ("text", "é\n\"", "é\n\""), ("flag", False, False), ("flag", True, True), ("dec", "1.50", "1.5"),
        ("dec", "-0.001", "-0.001"), ("id", "m-z:one-id", "m-z:one-id"), ("mix", True, True), ("mix", "x", "x"),
        ("void", [None], [None]), ("bits", "b2 b0", "b0 b2"), ("bits", "", "")]


def build(ctx, rng, prof):
    from yangson import DataModel
    m = gen_model(rng, prof)
    d = ctx.tmpdir()
    m.write(d, rng)
    for n, t in (("ietf-yang-metadata@2016-08-05", META), ("m-z@2024-01-01", ANN)):
        with open(os.path.join(d, n + ".yang"), "w") as f:
            f.write(t)
    lib = m.yang_library()
    ms = lib["ietf-yang-library:modules-state"]["module"]
    ms += [{"name": "m-z", "revision": "2024-01-01", "namespace": "urn:vf:m-z", "conformance-type": "implement"},
           {"name": "ietf-yang-metadata", "revision": "2016-08-05", "conformance-type": "import",
            "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-metadata"}]
    rng.shuffle(ms)
    ctx.ev("models built")
    return m, DataModel(json.dumps(lib), (d,))


def child(node, k):
    p, s, loc = k.partition(":")
    ns, n = (p, loc) if s else (node.ns, p)
    return node.dchild(ns, n) or node.child(ns, n)


def annotation(rng):
    raw, can = {}, {}
    for n, v, c in rng.sample(ANNS, rng.randint(1, 3)):
        raw["m-z:" + n], can["m-z:" + n] = v, c
    return raw, can


def annotate(node, raw, can, rng, p, stat):
    """Add annotations to a raw document and to its canonical form."""
    if rng.random() < p and node.kw in ("container", "list"):
        raw["@"], can["@"] = annotation(rng)
        stat["annotated objects"] = stat.get("annotated objects", 0) + 1
    for k in [k for k in raw if k != "@"]:
        c = child(node, k)
        ck = c.iname()
        if c.kw == "container":
            annotate(c, raw[k], can[ck], rng, p, stat)
        elif c.kw == "list":
            for x, y in zip(raw[k], can[ck]):
                annotate(c, x, y, rng, p, stat)
        elif rng.random() < p:
            # the target may be qualified redundantly, too
            tk = "@" + (k if rng.random() < 0.5 else ck)
            if c.kw == "leaf-list":
                rs, cs = [], []
                for _ in raw[k]:
                    a = (None, None) if rng.random() < 0.5 else annotation(rng)
                    rs.append(a[0])
                    cs.append(a[1])
                if any(x is not None for x in rs):
                    raw[tk], can["@" + ck] = rs, cs
                    stat["annotated leaf-lists"] = stat.get("annotated leaf-lists", 0) + 1
            elif c.kw == "leaf":
                raw[tk], can["@" + ck] = annotation(rng)
                stat["annotated leaves"] = stat.get("annotated leaves", 0) + 1
    if rng.random() < 0.5:
        ks = list(raw)
        rng.shuffle(ks)
        items = [(k, raw[k]) for k in ks]
        raw.clear()
        raw.update(items)


def compare(ctx, inst, want, what, det):
    got = inst.raw_value()
    ctx.ev("exports compared")
    ok = ctx.check(cr(got) == cr(want), "round-trip", f"{what}: exported value differs", got=got, want=want, **det)
    try:
        back = json.loads(json.dumps(got, allow_nan=False))
        ctx.check(cr(back) == cr(got), "json", f"{what}: exported value is not plain JSON", got=repr(got), **det)
    except (TypeError, ValueError) as e:
        ctx.fail("json", f"{what}: export cannot be written as JSON: {e}", got=repr(got), **det)
    return ok


def inner(ctx, rng, inst, want, path, det, budget):
    """Every inner node exports its part."""
    todo = [(inst, want)]
    while todo and budget:
        i, w = todo.pop(rng.randrange(len(todo)))
        budget -= 1
        if isinstance(w, dict) and (i.schema_node.__class__.__name__ not in ("AnydataNode", "AnyxmlNode")):
            for k in w:
                if k.startswith("@"):
                    continue
                n = i[k]
                ctx.check(n.name == k, "name", f"member {k} has name {n.name}", **det)
                todo.append((n, w[k]))
            if i is not inst:
                compare(ctx, i, w, f"node {i.json_pointer()}", det)
        elif isinstance(w, list) and (i.schema_node.__class__.__name__ in ("ListNode", "LeafListNode")) \
                and isinstance(i.value, list):
            for j in range(len(w)):
                todo.append((i[j], w[j]))
            compare(ctx, i, w, f"array {i.json_pointer()}", det)
        else:
            compare(ctx, i, w, f"node {i.json_pointer()}", det)


def filtered(ctx, rng, inst, want, det):
    """Export with a filter that leaves out nodes given by their path."""
    from yangson.instance import OutputFilter
    drop, late = set(), set()

    def walk(v, path):
        if isinstance(v, dict):
            for k in v:
                if k.startswith("@"):
                    continue
                r = rng.random()
                if r < 0.1:
                    (drop if r < 0.06 else late).add(path + (k,))
                else:
                    walk(v[k], path + (k,))
        elif isinstance(v, list) and v != [None]:
            for j, x in enumerate(v):
                r = rng.random()
                if r < 0.1:
                    (drop if r < 0.06 else late).add(path + (j,))
                else:
                    walk(x, path + (j,))

    def strip(v, path):
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                if k.startswith("@"):
                    continue
                if path + (k,) in drop | late:
                    continue
                out[k] = strip(x, path + (k,))
            return out
        if isinstance(v, list) and v != [None]:
            # empty entries are left out of the comparison: those emptied
            # by the filter are not exported unless they are annotated
            return [y for j, x in enumerate(v) if path + (j,) not in drop | late
                    for y in [strip(x, path + (j,))] if y != {}]
        return v

    seen = []

    class F(OutputFilter):
        def begin_member(self, parent, node, attributes):
            seen.append(node.path)
            return node.path not in drop

        def end_member(self, parent, node, attributes):
            return node.path not in late

        def begin_element(self, parent, node, attributes):
            seen.append(node.path)
            return node.path not in drop

        def end_element(self, parent, node, attributes):
            return node.path not in late

    walk(want, ())
    got = inst.raw_value(F())
    ctx.ev("filtered exports")
    w = strip(want, ())
    ctx.check(cr(strip(got, ("-",))) == cr(w), "filtered", "export through a filter differs", got=got, want=w,
              drop=sorted(map(str, drop)), late=sorted(map(str, late)), **det)


def has_any(node):
    return any(x.kw in ("anydata", "anyxml") for x in node.walk())


def case(ctx, rng, prof=None, docs=4):
    prof = prof or Profile(when=0.02, must=0, augment=3, rpc=0.3)
    m, dm = build(ctx, rng, prof)
    for _ in range(docs):
        dg = dgen.DG(m.lib, rng, qualify=rng.choice([0, 0, 0.3, 1]), maxlist=rng.choice([1, 3, 5]),
                     density=rng.choice([0.3, 0.6, 0.9]))
        one(ctx, rng, m, dm, m.lib.root, dg, None)
    for op in m.lib.root.children:
        if op.kw in ("rpc", "notification"):
            one(ctx, rng, m, dm, op, dgen.DG(m.lib, rng, qualify=rng.choice([0, 0.5])), f"{op.ns}:{op.name}")


def one(ctx, rng, m, dm, root, dg, sub):
    raw = {}
    if root.kw == "rpc":
        for io in root.children:
            if io.kw in ("input", "output") and rng.random() < 0.7:
                raw[f"{root.ns}:{io.kw}"] = dg.obj(io)
    else:
        raw = dg.obj(root)
    while True:
        try:
            can = rdata.encode(rdata.decode(root, raw, m.lib))
            break
        except rdata.RawErr as e:
            if not dg.drop(raw, e.path):
                return
    stat = {}
    plain = copy.deepcopy(can)
    p = rng.choice([0, 0.1, 0.4])
    if p:
        annotate(root, raw, can, rng, p, stat)
    if root.kw != "root":
        # members at the top level are qualified
        def qualify(d):
            return {"@" * (k[0] == "@") + (k.lstrip("@") if ":" in k else f"{root.ns}:{k.lstrip('@')}"): v
                    for k, v in d.items()}
        can, plain = qualify(can), qualify(plain)
    det = dict(document=raw, subschema=sub, model=util.model_text(m.lib))
    src = copy.deepcopy(raw)
    inst = dm.from_raw(raw) if sub is None else dm.from_raw(raw, sub)
    for k, n in stat.items():
        ctx.ev(k, n)
    ctx.case([sub, src], len(plain) >= 1 and (cr(src) != cr(plain) or bool(stat)), str(src)[:200])
    if sub:
        ctx.ev("operation documents")
    ctx.check(cr(raw) == cr(src) and list(raw) == list(src), "input-changed", "reading changed the input", **det)
    if not compare(ctx, inst, can, "document", det):
        return
    again = dm.from_raw(inst.raw_value()) if sub is None else dm.from_raw(inst.raw_value(), sub)
    compare(ctx, again, can, "second reading", det)
    ctx.check(again.value == inst.value, "second-value", "reading the export gives another value", **det)
    if sub is None or root.kw == "notification":
        inner(ctx, rng, inst, can, (), det, 40)
        if not has_any(root):
            filtered(ctx, rng, inst, plain, det)
        # schema nodes convert their part
        for k in rng.sample(sorted(plain), min(3, len(plain))):
            n = inst[k]
            v = n.schema_node.from_raw(copy.deepcopy(n.raw_value()), "/" + k)
            ctx.check(v == n.value, "schema-node", f"from_raw of {k} by its schema node differs", **det)
            if sub is None:
                o = n.schema_node.orphan_instance(copy.deepcopy(n.raw_value()))
                compare(ctx, o, can[k], f"orphan instance of {k}", det)


def union64(ctx, rng):
    """Known finding: 64-bit and shorter integers in one union."""
    from yangson import DataModel
    d = ctx.tmpdir()
    a, b = rng.choice([("int64", "int8"), ("uint64", "int16"), ("int64", "uint32")])
    if rng.random() < 0.3:
        a, b = b, a
    with open(os.path.join(d, "m.yang"), "w") as f:
        f.write(f"module m {{ yang-version 1.1; namespace urn:m; prefix m; leaf u {{ type union {{ type {a}; type {b}; }} }} }}")
    dm = DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
        {"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement"}]}}), (d,))
    v = rng.randint(0, 100)
    for raw in (v, str(v)):
        doc = {"m:u": raw}
        out = dm.from_raw(doc).raw_value()
        ctx.case([a, b, raw], True)
        same = list(out) == ["m:u"] and str(out["m:u"]) == str(raw)
        ctx.check(cr(out) == cr(doc), "union-integer-form" if same else "round-trip", f"union of {a} and {b}: {doc} is exported as {out}",
                  document=doc)


def flat(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=5, when=0, must=0, augment=4, augtmod=True, unions=0.2, anydata=0.1,
                           choice=0.2, rpc=0.2), 6)


GROUPS = [Group("rich", case, 250, 3000), Group("flat", flat, 250, 3000), Group("union64", union64, 8, 30)]
REQUIRE = {"exports compared": 15000, "annotated leaves": 300, "annotated leaf-lists": 80, "annotated objects": 200,
           "operation documents": 150, "filtered exports": 300}
