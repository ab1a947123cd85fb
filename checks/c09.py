"""C09: adding defaults yields exactly the in-use default values."""
import copy
from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import Profile

PROPERTY = "C09"
RULE = ("random YANG models (defaults of leaves, leaf-lists, typedefs, choices with default "
        "and active cases, non-presence containers, when on all kinds of nodes, refine, "
        "augment, deviation, state data) with valid documents; one evaluation = one "
        "add_defaults call on a node of a document for one content type, compared with the "
        "reference set of in-use defaults; non-trivial if some default is added")
ASSUMPTIONS = ["the reference for defaults in use implements RFC 7950, sections 7.5.7, 7.6.1, "
               "7.7.2 and 7.9.3"]
CT = [None, "all", "config", "nonconfig"]


def strip(raw):
    """Remove annotations."""
    if isinstance(raw, dict):
        return {k: strip(v) for k, v in raw.items() if not k.startswith("@")}
    if isinstance(raw, list):
        return [strip(x) for x in raw]
    return raw


def count(raw):
    if isinstance(raw, dict):
        return sum(1 + count(v) for v in raw.values())
    if isinstance(raw, list):
        return sum(1 + count(v) for v in raw)
    return 0


def marks(ri_raw, got, out, path=()):
    """Members of got (with annotations) that are marked as default."""
    for k, v in got.items():
        if k.startswith("@"):
            continue
        a = got.get("@" + k, {})
        if isinstance(v, dict):
            a = v.get("@", {})
        if isinstance(v, list) and v != [None]:     # array with one object per entry (RFC 7952, section 5.2.3)
            m = isinstance(a, list) and len(a) == len(v) and all(isinstance(x, dict) and x.get("ietf-netconf-with-defaults:default") is True for x in a)
        else:
            m = isinstance(a, dict) and a.get("ietf-netconf-with-defaults:default") is True
        new = k not in ri_raw
        out.append((path + (k,), new, m))
        if new:
            continue
        if isinstance(v, dict) and isinstance(ri_raw[k], dict):
            marks(ri_raw[k], v, out, path + (k,))
        elif isinstance(v, list):
            for i, (x, y) in enumerate(zip(ri_raw[k], v)):
                if isinstance(x, dict):
                    marks(x, y, out, path + (k, i))


def case(ctx, rng, prof=None, ndoc=3):
    m, dm = util.model(ctx, rng, prof or Profile(default=0.7, choice=0.2, deviations=3, when=0.2,
                                                 mandatory=0.1))
    lib = m.lib
    for j in range(ndoc):
        state = rng.random() < 0.6
        vct = "all" if state else "config"
        dg = dgen.DG(lib, rng, state=state, density=rng.choice([0.1, 0.3, 0.5, 0.7]))
        if rng.random() < 0.1 and not rdata.validate(rdata.decode(lib.root, {}, lib), lib, vct):
            raw = {}
        else:
            r = dg.valid(vct)
            if r is None:
                ctx.ev("no valid document found")
                continue
            raw = r[0]
        ri = rdata.decode(lib.root, raw, lib)
        inst = dm.from_raw(raw)
        before = rdata.canon_raw(inst.raw_value())
        for ct in CT:
            want = rdata.with_defaults(ri, ct or "all")
            e = None if ct is None else util.ctype_enum(ct)
            w = inst.add_defaults(e)
            got = w.raw_value()
            det = {"document": raw, "content type": ct, "got": got, "want": want,
                   "model": util.model_text(lib)}
            n = count(want) - count(rdata.encode(ri))
            ctx.case([raw, ct, m.text()], n > 0, str(want)[:300])
            ctx.ev("defaults expected", n)
            if not ctx.check(rdata.canon_raw(got) == rdata.canon_raw(want), "wrong-defaults",
                             lambda: "add_defaults differs from the defaults in use: " +
                             diff(want, got), **det):
                continue
            again = w.add_defaults(e).raw_value()
            ctx.check(again == got, "not-idempotent", "second add_defaults changed the value",
                      again=again, **det)
            ctx.check(rdata.canon_raw(inst.raw_value()) == before, "source-changed",
                      "add_defaults changed the instance it was called on", **det)
            t = inst.add_defaults(e, tag=True)
            traw = t.raw_value()
            ctx.check(rdata.canon_raw(strip(traw)) == rdata.canon_raw(strip(want)), "tagged-differs",
                      "add_defaults with tag gives different data", tagged=traw, **det)
            mk = []
            marks(rdata.encode(ri), traw, mk)
            ctx.ev("marks checked", len(mk))
            for p, new, mark in mk:
                ctx.check(new == mark, "wrong-mark",
                          f"{'/'.join(map(str, p))}: added={new}, marked as default={mark}",
                          tagged=traw, **det)
            # a valid document stays valid, with all defaults explicit
            if ct == vct or ct in (None, "all"):
                v = util.judge(dm, None, "all", vct, inst=w)
                if ct in (None, "all") and vct == "config":
                    continue       # state data were added
                # constraints of the added nodes themselves may be broken
                errs = rdata.validate(rdata.decode(lib.root, want, lib), lib, vct)
                ctx.ev("revalidated" if not errs else "revalidated, defaults break constraints")
                ctx.check(v.ok == (not errs), "defaults-invalidate",
                          lambda: f"valid document with defaults added: expected {errs}, "
                          f"got {v}", **det)
        # subtrees
        nodes = [x for x in ri.walk() if x.parent is not None and
                 x.node.kw in ("container", "list")]
        rng.shuffle(nodes)
        for x in nodes[:3]:
            k = inst
            for step in x.path():
                k = k[step]
            want = rdata.with_defaults(x, "all")
            got = k.add_defaults(util.ctype_enum("all")).raw_value()
            ctx.ev("subtrees")
            ctx.check(rdata.canon_raw(got) == rdata.canon_raw(want), "wrong-defaults-subtree",
                      lambda: f"at {x.path()}: " + diff(want, got), document=raw, got=got,
                      want=want, model=util.model_text(lib))
            # the same from the root
            top = k.add_defaults(util.ctype_enum("all")).top()
            exp = copy.deepcopy(rdata.encode(ri))
            put(exp, x.path(), want)
            ctx.check(rdata.canon_raw(top.raw_value()) == rdata.canon_raw(exp),
                      "wrong-zip", f"defaults of {x.path()} zipped up", document=raw,
                      got=top.raw_value(), want=exp, model=util.model_text(lib))


def put(raw, path, val):
    for s in path[:-1]:
        raw = raw[s]
    raw[path[-1]] = val


def diff(want, got, path=""):
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return f"missing {path}/{k} = {want[k]!r}"
        for k in got:
            if k not in want:
                return f"unexpected {path}/{k} = {got[k]!r}"
        for k in want:
            d = diff(want[k], got[k], f"{path}/{k}")
            if d:
                return d
        return ""
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        for i, (a, b) in enumerate(zip(want, got)):
            d = diff(a, b, f"{path}/{i}")
            if d:
                return d
        return ""
    if want != got or type(want) is not type(got):
        return f"{path}: expected {want!r}, got {got!r}"
    return ""


def flat(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=3, default=0.8, choice=0.4, when=0.35, mandatory=0.05,
                           augment=2, deviations=2, presence=0.2, state=0.2, typedefs=0.5), 4)


GROUPS = [Group("rich", case, 500, 6000), Group("flat", flat, 800, 12000)]
REQUIRE = {"defaults expected": 9000, "marks checked": 9000, "subtrees": 600, "revalidated": 900}
