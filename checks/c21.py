"""C21: observation has no effect."""
from vf.core import Group
from vf.ops import Env, Scene

PROPERTY = "C21"
RULE = ("random models and documents with a pool of operations (model queries, lookups, types, identities, defaults, validation, XPath, export, "
        "printing, hashing, comparison, navigation, and editing of copies); each of several data models built from the same modules "
        "executes the pool in its own random order, some operations repeatedly; one evaluation = one executed operation, whose outcome is compared "
        "with the outcome in the other models and before; non-trivial if it followed other operations")
ASSUMPTIONS = ["exceptions are outcomes, compared by class, text, tag and place", "the order of the members of an object is no outcome"]


def case(ctx, rng):
    sc = Scene(ctx, rng)
    if not sc.ops:
        return
    seen = {}
    k = 4
    for r in range(k):
        env = Env(sc, sc.model())
        pic = env.picture()
        idx = list(range(len(sc.ops)))
        if r == 0:
            # every operation alone on fresh objects of its own
            idx = rng.sample(idx, min(12, len(idx)))
        elif r == 1:
            rng.shuffle(idx)
        else:
            idx = [rng.choice(idx) for _ in range(len(idx))] + rng.sample(idx, len(idx) // 2)
        done = []
        for i in idx:
            if r == 0:
                env = Env(sc, sc.model())
            out = sc.run(env, sc.ops[i])
            ctx.ev("run " + sc.ops[i][0])
            ctx.ev(out[0])
            ctx.case([sc.json, r, len(done), repr(sc.ops[i])], bool(done) and r > 0, f"{repr(sc.ops[i])[:200]} after {len(done)} others: {repr(out)[:200]}")
            if i in seen:
                ctx.ev("outcomes compared")
                if not ctx.check(out == seen[i][0], "outcome:" + sc.ops[i][0],
                                 lambda: f"{repr(sc.ops[i])[:300]} gives {repr(out)[:400]} after {len(done)} operations, and {repr(seen[i][0])[:400]} "
                                 f"after {len(seen[i][1])}", operation=sc.ops[i], outcomes=[seen[i][0], out],
                                 before=[seen[i][1], [sc.ops[j] for j in done[-30:]]], documents=sc.docs, text=sc.m.text(), library=sc.json):
                    return
            else:
                seen[i] = (out, [sc.ops[j] for j in done])
            done.append(i)
        ok = r == 0 or env.picture() == pic and env.astray() is None
        if r and ok:
            ctx.ev("instances unchanged")
        ctx.check(ok, "instance-changed", "an instance differs after operations", documents=sc.docs,
                  operations=[sc.ops[j] for j in done], text=sc.m.text(), library=sc.json)


GROUPS = [Group("orders", case, 150, 800)]
REQUIRE = {"outcomes compared": 20000, "instances unchanged": 200, "run validate": 2000, "run xpath": 2000, "run type": 1000, "run identities": 500,
           "run hash": 500, "run str": 500, "run operation": 800}
