"""C02: editing and navigation act like operations on a plain tree."""
from vf import util
from vf.core import Group
from vf.gen import Profile
from vf.hist import History

PROPERTY = "C02"
RULE = ("random models and documents; histories of navigation and editing operations (raw and "
        "cooked values, redundantly qualified names, negative indices, operations without a "
        "target) applied to random earlier handles; one evaluation = one operation, after which "
        "path, value, position, siblings and the value at the root are compared with a plain "
        "tree; non-trivial = editing operation")
ASSUMPTIONS = ["the plain-tree model of each operation follows docs/instance.rst"]


def case(ctx, rng, prof=None, steps=40):
    m, dm = util.model(ctx, rng, prof or Profile(typedefs=0.2, when=0.02, must=0.02, augment=2,
                                                 keyless=0.3))
    hi = History(ctx, rng, m, dm)
    h = hi.start()
    for n in range(steps):
        if rng.random() < 0.12:
            h = rng.choice(hi.handles)
        k = len(hi.log)
        new = hi.step(h)
        if len(hi.log) > k:
            op = hi.log[-1]
            ctx.case([op, m.text() and h.doc], op[0] in ("put_member", "delete_item", "update", "merge",
                                               "insert_before", "insert_after"), str(op)[:200])
        if new is None:
            continue
        hi.add(new)
        h = new


def lists(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=3, when=0, must=0, leafref=0, unions=0.2, typedefs=0.1,
                           deviations=0, choice=0.05), 60)


GROUPS = [Group("rich", case, 500, 5000), Group("lists", lists, 500, 5000)]
REQUIRE = {"handles compared with the plain tree": 12000, "failing operations": 1000,
           "op merge": 500, "op insert_after": 250, "op look_up": 150, "op sibling": 300}
