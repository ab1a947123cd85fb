"""C04: validation accepts exactly the valid documents."""
from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import REV, Model, ModelGen, Profile, Scope, header
from vf.rcomp import Mod
from vf.yst import S
from vf.rdata import RawErr

PROPERTY = "C04"
RULE = ("random YANG models (augments, uses, deviations, choices, when, must, leafref, "
        "unions, ...) with valid documents and 1-3 mutations of them; one evaluation = "
        "one document whose verdict (accepted / kind, place and tag of the error) from "
        "the real code is compared with an independent reference validator; documents "
        "that are empty objects are trivial")
ASSUMPTIONS = ["the reference validator implements RFC 7950 as described in DESIGN.md"]

KIND = {"not-allowed": ("schema", "member-not-allowed"),
        "missing": ("schema", "missing-data"),
        "key-missing": ("schema", "list-key-missing"),
        "too-few": ("semantic", "too-few-elements"),
        "too-many": ("semantic", "too-many-elements"),
        "dup-value": ("semantic", "repeated-leaf-list-value"),
        "dup-key": ("semantic", "non-unique-key"),
        "not-unique": ("semantic", "data-not-unique"),
        "leafref": ("semantic", "instance-required"),
        "must": ("semantic", None), "type": ("type", None)}


def strp(p):
    return tuple(map(str, p))


def tagof(v):
    t = v.tag or ""
    for pre in ("nonconfig ", "config "):
        if t.startswith(pre):
            t = t[len(pre):]
    return t.split(":")[0]


def compare(ctx, lib, raw, v, ctype, scope="all", what="", root=None):
    """Compare verdict v with the reference; returns 'ok' | 'bad'."""
    bad = None
    try:
        ri = rdata.decode(root or lib.root, raw, lib)
    except RawErr as e:
        bad = e
    det = {"document": raw, "mutation": what, "observed": repr(v),
           "content type": ctype, "scope": scope,
           "model": util.model_text(lib)}
    if bad is not None:
        ctx.ev("expected raw error " + bad.kind.split(":")[0])
        if v.ok and scope == "semantics" and bad.kind.startswith("value"):
            return "skip"       # types are not checked in this scope
        if not ctx.check(not v.ok, "accepted-" + bad.kind,
                         lambda: f"invalid document accepted: {bad}", **det):
            return "bad"
        want = {"member": ("RawMemberError",), "type": ("RawTypeError",)}.get(
            bad.kind, ("RawTypeError", "type"))
        if bad.kind in ("member", "type"):
            # the first one met may be another one: only one mutation is made
            # when kinds are compared
            if what and len(what) == 1:
                ctx.check(v.kind in want, "wrong-error-kind",
                          f"expected {want} for {bad}, got {v}", **det)
        return "bad"
    errs = rdata.validate(ri, lib, ctype, scope)
    if not errs:
        ctx.ev("expected valid")
        ctx.check(v.ok, f"rejected-valid:{v.kind}:{tagof(v)}",
                  lambda: f"valid document rejected: {v}", **det)
        return "ok"
    for e in errs:
        ctx.ev("expected error " + e[0])
    if not ctx.check(not v.ok, "accepted-" + errs[0][0],
                     lambda: f"invalid document accepted: {errs}", **det):
        return "bad"
    for e in errs:
        kd, tag = KIND[e[0]]
        if e[0] == "must":
            tag = e[2]
        if v.kind == kd and (tag is None or tagof(v) == tag) and \
                strp(e[1]) == v.path:
            return "bad"
    ctx.fail("other-error", f"reported {v}, but the document violates {errs}", **det)
    return "bad"


def case(ctx, rng, prof=None, ndoc=2, nmut=9, maxlist=3, minlist=0):
    m, dm = util.model(ctx, rng, prof or Profile(rpc=0.3, deviations=3))
    for j in range(ndoc):
        state = rng.random() < 0.6
        ctype = rng.choice(["all", "all", "config"]) if state else "config"
        dg = dgen.DG(m.lib, rng, state=state and ctype == "all",
                     density=rng.choice([0.4, 0.6, 0.8]), maxlist=maxlist, minlist=minlist)
        r = dg.valid(ctype)
        if r is None:
            ctx.ev("no valid document found")
            continue
        base, ri = r
        v = util.judge(dm, base, "all", ctype)
        compare(ctx, m.lib, base, v, ctype, "all", ["none"])
        ctx.case(["v", base, ctype, m.text()], bool(base), str(base)[:300])
        if v.ok:
            for sc in ("syntax", "semantics"):
                w = util.judge(dm, None, sc, ctype, inst=v.inst)
                ctx.check(w.ok, "scope-" + sc,
                          f"valid in scope all, rejected in scope {sc}: {w}", document=base)
        for k in range(nmut):
            raw, descs = base, []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                try:
                    raw, d = dgen.mutate(raw, m.lib.root, rng, dg)
                except (AttributeError, TypeError, KeyError, IndexError, ValueError):
                    break      # the previous mutation broke the shape
                if d is None:
                    break
                descs.append(d)
            if not descs:
                continue
            v = util.judge(dm, raw, "all", ctype)
            res = compare(ctx, m.lib, raw, v, ctype, "all", descs)
            ctx.case([raw, ctype, m.text()], bool(raw))
            if res == "bad" and v.inst is not None and not v.ok:
                # syntax and semantics are the two halves of all
                a = util.judge(dm, None, "syntax", ctype, inst=v.inst)
                ctx.check(a.ok == (v.kind not in ("schema", "type")) or not a.ok,
                          "scope-split", f"all: {v}, syntax: {a}", document=raw)
                b = util.judge(dm, None, "semantics", ctype, inst=v.inst)
                if a.ok and b.ok:
                    ctx.fail("scope-split", f"all: {v}, but both halves pass",
                             document=raw)


def flat(ctx, rng):
    """Small models: denser coverage of the interplay of few statements."""
    case(ctx, rng, Profile(depth=1, width=3, when=0.3, must=0.3, choice=0.35,
                           mandatory=0.4, unique=0.6, augment=2, deviations=2,
                           leafref=0.2, unions=0.2), 3, 12)


def big(ctx, rng):
    """Longer lists and leaf-lists."""
    case(ctx, rng, Profile(depth=1, width=3, leafref=0.5, unique=0.5, augment=0, uses=0,
                           anydata=0, maxels=False), 2, 6, rng.choice([20, 30, 40]), 10)


def refs(ctx, rng):
    """Many references to many targets, in several notations."""
    g = ModelGen(rng, Profile(typedefs=0, unions=0.1, bits=False, iffeature=0))
    sc = Scope("m-a", {}, None)
    ma = header("m-a", "a")
    ma.add(S("revision", REV))

    def ty(**kw):
        return g.gen_type(sc, base=rng.choice([
            "string", "int32", "uint64", "decimal64", "enumeration", "binary", "union"]), **kw).stmt()

    def lref(path):
        st = S("type", "leafref", S("path", path))
        if rng.random() < 0.15:
            st.add(S("require-instance", "false"))
        return st
    top = S("container", "top") if rng.random() < 0.5 else ma
    pre = "/a:top/a:" if top is not ma else "/a:"
    if top is not ma:
        ma.add(top)
    top.add(S("leaf-list", "t", ty()))
    top.add(S("list", "li", S("key", "k j"), S("leaf", "k", ty()), S("leaf", "j", ty()),
              S("leaf", "v", ty())))
    top.add(S("leaf-list", "r1", lref(rng.choice(["../t", pre + "t"]))))
    top.add(S("leaf-list", "r2", lref(rng.choice(["../li/k", pre + "li/a:k", "../a:li/j"]))))
    top.add(S("list", "x", S("key", "id"), S("leaf", "id", S("type", "int32")),
              S("leaf", "k", lref("../../li/k")),
              S("leaf", "j", lref(pre + "li[a:k = current()/../k]/a:j")),
              S("leaf", "v", lref("../../li[k=current()/../k][j = current()/../j]/v")),
              S("leaf", "w", lref("../v"))))
    m = Model([Mod(ma, REV)])
    dm = m.build(ctx.tmpdir(), rng)
    dg = dgen.DG(m.lib, rng, density=0.85, maxlist=rng.choice([5, 12, 30, 60]), minlist=3)
    raw = dg.obj(m.lib.root)
    for _ in range(60):
        ri = rdata.decode(m.lib.root, raw, m.lib)
        errs = rdata.validate(ri, m.lib, "config")
        if not errs:
            break
        for e in errs[:8]:
            if e[0] == "leafref" and dg.fix_ref(raw, ri, e[1]):
                continue
            dg.repair(raw, ri, [e])
            break
    if errs:
        ctx.ev("no valid document found")
        return
    ctx.ev("leafrefs", sum(1 for x in ri.walk() if x.val and x.node.type.base == "leafref"))
    v = util.judge(dm, raw)
    compare(ctx, m.lib, raw, v, "config", "all", ["none"])
    ctx.case([raw, m.text()], bool(raw))
    for _ in range(5):
        r2, d = dgen.mutate(raw, m.lib.root, rng, dg)
        if d is None:
            continue
        v = util.judge(dm, r2)
        compare(ctx, m.lib, r2, v, "config", "all", [d])
        ctx.case([r2, m.text()], bool(r2))


GROUPS = [Group("rich", case, 400, 5000), Group("flat", flat, 600, 8000),
          Group("big", big, 120, 2000), Group("refs", refs, 120, 3000)]
REQUIRE = {"expected valid": 400, "expected error must": 20, "expected error missing": 60,
           "expected error not-allowed": 60, "expected raw error value": 60,
           "expected error dup-key": 10, "expected error leafref": 5}
