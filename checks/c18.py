"""C18: entity tags and time stamps reflect changes exactly."""
import random
from vf import dgen, rdata, util
from vf.core import Group
from vf.gen import Profile
from vf.hist import History, cr

PROPERTY = "C18"
RULE = ("histories of edits on random documents whose time stamps are observed before and after each edit, and sets of "
        "structured values (built by edits, by reading permuted documents, and one-leaf variations) whose equality "
        "and hashes are compared pairwise with equality of their canonical content; one evaluation = one "
        "edit or one pair of values; pairs of a value with itself are not made")
ASSUMPTIONS = ["the system clock does not go back during a run"]


def case(ctx, rng, prof=None, steps=30):
    m, dm = util.model(ctx, rng, prof or Profile(typedefs=0.2, when=0.02, must=0.02, augment=2))
    hi = History(ctx, rng, m, dm, tree=False, times=True)
    h = hi.start()
    for n in range(steps):
        if rng.random() < 0.15:
            h = rng.choice(hi.handles)
        k = len(hi.log)
        new = hi.step(h)
        if len(hi.log) > k:
            op = hi.log[-1]
            ctx.case([op, m.text()], op[0] in ("put_member", "delete_item", "update", "merge",
                                               "insert_before", "insert_after"), str(op)[:200])
        if new is not None:
            hi.add(new)
            h = new
    pairs(ctx, rng, hi)
    variants(ctx, rng, hi)


def judge(ctx, hi, a, ca, b, cb, how):
    if not isinstance(a, (dict, list)) or not isinstance(b, (dict, list)):
        return
    same = ca == cb
    ctx.case([str(ca), str(cb), how], True)
    ctx.ev("equal pairs" if same else "different pairs")
    ctx.check((a == b) == same and (a != b) == (not same), "equality",
              f"{how}: contents equal: {same}, values compare equal: {a == b}, different: {a != b}",
              a=repr(a)[:3000], b=repr(b)[:3000], model=util.model_text(hi.lib))
    ctx.check((hash(a) == hash(b)) == same, "entity-tag",
              f"{how}: contents equal: {same}, hashes equal: {hash(a) == hash(b)}",
              a=repr(a)[:3000], b=repr(b)[:3000], model=util.model_text(hi.lib))


def pairs(ctx, rng, hi):
    hs = [h for h in hi.handles if isinstance(h.inst.value, (dict, list))
          and h.node.kw not in ("anydata", "anyxml")]
    for _ in range(min(30, len(hs) ** 2)):
        a, b = rng.choice(hs), rng.choice(hs)
        if a.arr != b.arr or a.kind() != b.kind():
            continue
        if a.node is not b.node:
            continue
        judge(ctx, hi, a.inst.value, cr(a.val), b.inst.value, cr(b.val), "two nodes of a history")
    # read again, in another order of members
    for h in rng.sample(hs, min(4, len(hs))):
        raw = shuffled(h.doc, rng)
        inst = hi.dm.from_raw(raw)
        for s in h.path:
            inst = inst[s]
        judge(ctx, hi, h.inst.value, cr(h.val), inst.value, cr(h.val), "edited and read again")


def shuffled(raw, rng):
    if isinstance(raw, dict):
        ks = list(raw)
        rng.shuffle(ks)
        return {k: shuffled(raw[k], rng) for k in ks}
    if isinstance(raw, list):
        return [shuffled(x, rng) for x in raw]
    return raw


SMALL = [-1, -2, 0, 1, 2, -3, 255, 2 ** 31 - 1]


def variants(ctx, rng, hi):
    """Documents that differ in one leaf, one entry or the order of entries."""
    h = hi.handles[0]
    root = hi.lib.root
    doc = h.doc
    leaves = []

    def walk(v, node, path):
        for k, x in v.items():
            p, s, loc = k.partition(":")
            c = node.dchild(p if s else node.ns, loc if s else p)
            if c.kw == "leaf":
                leaves.append((path + (k,), c))
            elif c.kw == "leaf-list":
                leaves.extend((path + (k, i), c) for i in range(len(x)))
            elif c.kw == "container":
                walk(x, c, path + (k,))
            elif c.kw == "list":
                for i, e in enumerate(x):
                    walk(e, c, path + (k, i))
    walk(doc, root, ())
    from vf.hist import getp, setp, canon_entry, canon_member
    base = hi.dm.from_raw(doc)
    vs = [(base.value, cr(doc))]
    rng.shuffle(leaves)
    for path, c in leaves[:6]:
        for _ in range(3):
            if c.type.base.startswith("int") and rng.random() < 0.6:
                v = rng.choice(SMALL)
                v = str(v) if c.type.base == "int64" else v
            else:
                try:
                    v = dgen.gen_value(c.type, rng)
                except dgen.NoValue:
                    continue
            try:
                v = canon_entry(c, v, hi.lib) if isinstance(path[-1], int) else canon_member(c, v, hi.lib)
            except rdata.RawErr:
                continue
            d = setp(doc, path, v)
            vs.append((hi.dm.from_raw(shuffled(d, rng)).value, cr(d)))
    if leaves:
        path, c = leaves[0]
        if isinstance(path[-1], str):
            d = getp(doc, path[:-1])
            d = setp(doc, path[:-1], {k: x for k, x in d.items() if k != path[-1]})
            vs.append((hi.dm.from_raw(d).value, cr(d)))
    for i in range(len(vs)):
        for j in range(i):
            judge(ctx, hi, vs[i][0], vs[i][1], vs[j][0], vs[j][1], "variants of a document")
    # usable as keys: as many set members as different contents
    ctx.check(len({v for v, _ in vs}) == len({c for _, c in vs}), "set-size",
              f"{len({v for v, _ in vs})} values in a set, {len({c for _, c in vs})} different contents")


def ints(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=4, when=0, must=0, unions=0.2, typedefs=0.3, choice=0.05,
                           deviations=0), 24)


def direct(ctx, rng):
    """Values handled directly: copies, and members or entries that are set."""
    import datetime
    from vf.hist import freeze
    m, dm = util.model(ctx, rng, Profile(typedefs=0.2, when=0.02, must=0.02, augment=2))
    hi = History(ctx, rng, m, dm, tree=False, times=True)
    h = hi.start()
    vals = []

    def walk(v):
        if isinstance(v, (dict, list)):
            vals.append(v)
            for x in list(v.values()) if isinstance(v, dict) else v:
                walk(x)
    walk(h.inst.value)
    now = datetime.datetime.now
    for v in rng.sample(vals, min(12, len(vals))):
        before, hb = freeze(v), hash(v)
        t0 = now()
        c = v.copy()
        ctx.case([repr(v)], True)
        ctx.ev("copies of values")
        det = dict(value=repr(v)[:2000], model=util.model_text(hi.lib))
        ctx.check(type(c) is type(v) and c is not v and c == v and not c != v and hash(c) == hb, "copy",
                  "a copy has another type or content than the value", **det)
        ctx.check(t0 <= c.timestamp <= now(), "copy-time", f"a copy made at {t0} has timestamp {c.timestamp}", **det)
        old = c.timestamp
        if isinstance(c, list):
            if not c:
                continue
            k = rng.randrange(len(c))
            x = rng.choice(c)
        else:
            k = rng.choice([*c, "zz-other:new"])
            x = rng.choice([*c.values(), 1, "b"])
        same = (k in c and c[k] == x) if isinstance(c, dict) else c[k] == x
        if same and repr(c[k]) != repr(x):
            continue
        t1 = now()
        while now() == t1:
            pass
        t1 = now()
        c[k] = x
        ctx.ev("members or entries set in values")
        ctx.check(t1 <= c.timestamp <= now(), "set-time",
                  f"{k!r} was set at {t1}, the value has timestamp {c.timestamp} (earlier {old})", **det)
        ctx.check((c == v) == bool(same) and (c != v) == (not same) and (not same or hash(c) == hb), "set-equality",
                  f"{k!r} set to {x!r}: compares equal {c == v}, content the same {bool(same)}", **det)
        ctx.check(freeze(v) == before and hash(v) == hb, "copy-shared",
                  "setting a member or entry of a copy changed the original", **det)


GROUPS = [Group("direct", direct, 60, 800), Group("rich", case, 200, 2500), Group("ints", ints, 240, 3000)]
REQUIRE = {"timestamps of edited nodes and ancestors": 5000, "timestamps of other values": 3000, "timestamps after further steps": 8000,
           "copies of values": 200,
           "members or entries set in values": 150, "equal pairs": 1500, "different pairs": 5000}
