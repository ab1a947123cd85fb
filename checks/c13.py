"""C13: merging instance data."""
import copy

from vf import rdata, util
from vf.core import Group
from vf.gen import Profile
from vf.hist import History, cr, freeze, getp, rmerge, setp, unique_keys

PROPERTY = "C13"
RULE = ("random models and pairs of documents (independent ones and perturbed copies of each other with common and "
        "new entries in another order); the root, containers, lists, entries, leaf-lists and leaves are merged with "
        "raw and with cooked values, chained merges included; one evaluation = one merge; non-trivial if "
        "both operands have contents and the result differs from both")
ASSUMPTIONS = ["state leaf-list values are matched by value, entries of lists without keys are appended, both cases "
               "of a choice are kept (the result may be invalid)"]


def perturb(node, v, rng, dg, entry=False):
    """Another raw value of the node that shares entries with v."""
    if node.kw in ("leaf", "anydata", "anyxml"):
        return v
    if node.kw == "leaf-list":
        if entry:
            return v
        out = [x for x in v if rng.random() < 0.6]
        rng.shuffle(out)
        return out
    if node.kw == "list" and not entry:
        out = [perturb(node, x, rng, dg, True) for x in v if rng.random() < 0.7]
        rng.shuffle(out)
        return out
    keys = {node.dchild(*k).iname() for k in node.keys} if node.kw == "list" else ()
    other = dg.obj(node) if rng.random() < 0.8 else {}
    ks = list(v)
    rng.shuffle(ks)
    out = {}
    for k in ks:
        p, s, loc = k.partition(":")
        c = node.dchild(p if s else node.ns, loc if s else p)
        if k in keys:
            out[k] = v[k]
            continue
        r = rng.random()
        if r < 0.25:
            continue
        if r < 0.6 or k not in other:
            out[k] = perturb(c, v[k], rng, dg)
        elif c.kw in ("list", "leaf-list"):
            out[k] = perturb(c, v[k], rng, dg) + other[k]
            rng.shuffle(out[k])
        else:
            out[k] = other[k]
    for k in other:
        if k not in v and k not in keys and rng.random() < 0.7:
            out[k] = other[k]
    return out


def document(hi, raw):
    """Raw and canonical document made acceptable by dropping bad parts."""
    while True:
        try:
            return raw, rdata.encode(rdata.decode(hi.lib.root, raw, hi.lib))
        except rdata.RawErr as e:
            if not hi.dg.drop(raw, e.path):
                return None, None


def dedup(node, v, entry=False):
    """Drop entries with missing or repeated keys (their merge is not defined)."""
    if node.kw in ("leaf", "anydata", "anyxml", "leaf-list"):
        return v
    if node.kw == "list" and not entry:
        ks = [node.dchild(*k).iname() for k in node.keys]
        seen, out = set(), []
        for x in v:
            if ks:
                if any(k not in x for k in ks):
                    continue
                k = cr([x[k] for k in ks])
                if k in seen:
                    continue
                seen.add(k)
            out.append(dedup(node, x, True))
        return out
    return {k: dedup(child(node, k), x) for k, x in v.items()}


def child(node, k):
    p, s, loc = k.partition(":")
    return node.dchild(p if s else node.ns, loc if s else p)


def targets(node, v, path=(), entry=False):
    """Nodes of a document: (path, schema node, whole array?)."""
    arr = isinstance(v, list) and not entry and node.kw in ("list", "leaf-list")
    yield path, node, arr
    if arr:
        for i, x in enumerate(v):
            yield from targets(node, x, path + (i,), True)
    elif node.kw in ("root", "container", "list") and isinstance(v, dict):
        for k, x in v.items():
            yield from targets(child(node, k), x, path + (k,))


def merged(node, a, b, entry):
    if not a and isinstance(a, (dict, list)):
        return b
    return rmerge(node, a, b, entry)


def at(inst, path):
    for s in path:
        inst = inst[s]
    return inst


def case(ctx, rng, prof=None, pairs=4):
    m, dm = util.model(ctx, rng, prof or Profile(typedefs=0.2, when=0, must=0, augment=2,
                                                 keyless=0.3, state=0.2))
    hi = History(ctx, rng, m, dm)
    root = hi.lib.root
    for _ in range(pairs):
        a, ca = document(hi, dedup(root, hi.dg.obj(root)))
        if a is None:
            continue
        b, cb = document(hi, dedup(root, perturb(root, copy.deepcopy(ca), rng, hi.dg)))
        if b is None or not unique_keys(root, ca) or not unique_keys(root, cb):
            continue
        pair(ctx, rng, hi, dm, a, ca, b, cb)


def one(ctx, inst, path, arg, raw, want, what, det, other=None):
    """Merge at path, compare result, root and operands."""
    base = at(inst, path)
    pics = freeze(inst.value), freeze(arg), freeze(base.value)
    rbefore = cr(inst.raw_value())
    new = base.merge(arg, raw)
    got = new.raw_value()
    ctx.check(cr(got) == cr(want), "result", f"{what}: merged value at {path} differs",
              got=got, want=want, **det)
    ctx.check(new.path == tuple(path), "path", f"{what}: result is at {new.path}, not at {path}", **det)
    ctx.check((freeze(inst.value), freeze(arg), freeze(base.value)) == pics and
              cr(inst.raw_value()) == rbefore, "operands",
              f"{what}: merging at {path} changed an operand", **det)
    if other is not None:
        ctx.check(cr(new.top().raw_value()) == cr(other), "elsewhere",
                  f"{what}: document after merging at {path} differs",
                  got=new.top().raw_value(), want=other, **det)
    ctx.ev("merges compared")
    return new


def pair(ctx, rng, hi, dm, a, ca, b, cb):
    from yangson.instvalue import ObjectValue
    root = hi.lib.root
    det = dict(a=a, b=b, model=util.model_text(hi.lib))
    ia, ib = dm.from_raw(copy.deepcopy(a)), dm.from_raw(copy.deepcopy(b))
    want = merged(root, ca, cb, False)
    mode = rng.random() < 0.5
    new = one(ctx, ia, (), copy.deepcopy(b) if mode else ib.value, mode, want,
              "raw merge" if mode else "cooked merge", det, want)
    ctx.case([ca, cb], bool(ca) and bool(cb) and cr(want) not in (cr(ca), cr(cb)), str(a)[:200])
    ctx.check(freeze(ib.value) == freeze(dm.from_raw(b).value) or
              cr(ib.raw_value()) == cr(cb), "operands", "merged-in instance changed", **det)
    # no-operations
    keyless = has_keyless(root, ca)
    mode = rng.random() < 0.5
    one(ctx, ia, (), {} if mode else ObjectValue({}), mode, ca, "merge of nothing", det, ca)
    one(ctx, dm.from_raw({}), (), ib.value, False, cb, "merge into nothing", det, cb)
    if not keyless:
        one(ctx, ia, (), ia.value, False, ca, "merge with itself", det, ca)
    # again: nothing new
    if not has_keyless(root, cb):
        one(ctx, new, (), ib.value, False, want, "merging again", det, want)
    # single nodes
    ts = [t for t in targets(root, ca) if t[0]]
    rng.shuffle(ts)
    for path, node, arr in ts[:12]:
        entry = isinstance(path[-1], int)
        va = getp(ca, path)
        vb = counterpart(ctx, rng, hi, ca, cb, path, node, arr, va)
        if vb is None:
            continue
        w = merged(node, va, vb, entry)
        doc = setp(ca, path, w)
        raw = rng.random() < 0.5
        if raw:
            arg = copy.deepcopy(vb)
        else:
            try:
                arg = cook(dm, node, path, vb, entry)
            except KeyError:
                continue
        res = one(ctx, ia, path, arg, raw, w, f"merge of {node.kw}{' entry' if entry else ''}", det, doc)
        ctx.case([path, va, vb], cr(w) not in (cr(va), cr(vb)), str((path, vb))[:200])
        if not has_keyless(node, vb, entry):
            w2 = merged(node, w, vb, entry)
            one(ctx, res.top(), path, copy.deepcopy(vb), True, w2, "merging the node again", det)


def cook(dm, node, path, vb, entry):
    """Cooked value read from a document that contains just this node."""
    inst = dm.from_raw(nest(path[:-1] if entry else path, [vb] if entry else vb))
    p = [0 if isinstance(s, int) else s for s in path]
    if entry:
        p = p[:-1]
    inst = at(inst, p)
    return inst[0].value if entry else inst.value


def nest(path, v):
    for s in reversed(path):
        v = [v] if isinstance(s, int) else {s: v}
    return v


def counterpart(ctx, rng, hi, ca, cb, path, node, arr, va):
    """Canonical value to merge into node at path."""
    raw = perturb(node, copy.deepcopy(va), rng, hi.dg, isinstance(path[-1], int)) \
        if rng.random() < 0.7 else None
    if raw is None:
        r = hi.entry_value(node) if isinstance(path[-1], int) else hi.member_value(node)
        if r is None:
            return None
        raw = r[0]
    entry = isinstance(path[-1], int)
    raw = dedup(node, raw, entry)
    from vf.hist import canon_entry, canon_member
    try:
        v = canon_entry(node, raw, hi.lib) if entry else canon_member(node, raw, hi.lib)
    except (rdata.RawErr, KeyError, IndexError):
        return None
    if not unique_keys(node, v, entry):
        return None
    if entry and node.kw == "list":
        # an entry must keep its keys
        for k in node.keys:
            k = node.dchild(*k).iname()
            v = {**v, k: va[k]}
    return v


def has_keyless(node, v, entry=False):
    if node.kw == "list" and not entry:
        return bool(v) and (not node.keys or any(has_keyless(node, x, True) for x in v))
    if node.kw in ("root", "container", "list"):
        return any(has_keyless(child(node, k), x) for k, x in v.items())
    return False


def lists(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=4, when=0, must=0, leafref=0, unions=0.25, typedefs=0.1,
                           deviations=0, choice=0.05, keyless=0.3, state=0.3), 5)


GROUPS = [Group("rich", case, 350, 4000), Group("lists", lists, 450, 5000)]
REQUIRE = {"merges compared": 6000}
