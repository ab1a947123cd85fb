"""C01: instance structures are persistent."""
import importlib

from vf import rdata, util
from vf.core import Group, safe_str
from vf.gen import Profile
from vf.hist import H, History, cr

c03 = importlib.import_module("checks.c03")

PROPERTY = "C01"
RULE = ("random models and documents; histories of editing, navigation, merging and observing "
        "operations (add_defaults with and without tagging, validate, raw_value with filters, to_xml, XPath, "
        "iteration, hashing) applied to random earlier handles; after every operation all handles and all values "
        "passed in are re-observed; one evaluation = one operation; non-trivial if at "
        "least one earlier handle exists and the operation edits or adds defaults")
ASSUMPTIONS = ["a handle is changed if its path, raw value, cooked value with types and time stamps, "
               "neighbours, hash or root value change"]
XP = ["count(//*)", "/*", ".//*[1]", "../*", "string(.)", "sum(//*) > 0", "ancestor-or-self::*",
      "preceding-sibling::*|following-sibling::*", "*[. = '1']", "name(..)", "//*[not(*)]/.."]


def scribble(rng, attributes):
    """A filter may do with the annotations offered to it whatever it likes."""
    if isinstance(attributes, dict) and rng.random() < 0.4:
        for k in list(attributes):
            if rng.random() < 0.6:
                del attributes[k]
    elif isinstance(attributes, list) and rng.random() < 0.4:
        del attributes[rng.randrange(len(attributes) + 1):]


class Drop:
    """Output filter that leaves out some members, entries and annotations."""

    def __init__(self, rng):
        from yangson.instance import OutputFilter

        def answer(p):
            def fun(s, parent, node, attributes):
                scribble(rng, attributes)
                return rng.random() < p
            return fun
        self.__class__ = type("DropFilter", (OutputFilter,), {
            "begin_member": answer(0.7), "begin_element": answer(0.7),
            "end_member": answer(0.9), "end_element": answer(0.9)})


def observe(hi, h, dm):
    """An operation that is not supposed to change anything at all."""
    from yangson.exceptions import YangsonException
    rng, i = hi.rng, h.inst
    op = rng.choice(["defaults", "defaults", "tag", "validate", "filter", "xml", "xpath", "xpath", "route",
                     "eq", "str", "lookups"])
    hi.log.append([op, h.path])
    new = None
    if op in ("defaults", "tag"):
        ct = rng.choice([None, "all", "config", "nonconfig"])
        new = i.add_defaults(ct and util.ctype_enum(ct), tag=op == "tag")
    elif op == "validate":
        try:
            i.validate(util.scope_enum(rng.choice(["all", "syntax", "semantics"])),
                       util.ctype_enum(rng.choice(["all", "config"])))
        except YangsonException as e:
            safe_str(e)
    elif op == "filter":
        i.raw_value(Drop(rng))
        i.raw_value()
    elif op == "xml":
        # XML encoding of anydata is a known finding of C16
        if not isinstance(i.value, list) and h.node.kw != "leaf-list" and \
                not any(x.kw in ("anydata", "anyxml") for x in h.node.walk()):
            i.to_xml(Drop(rng)) if rng.random() < 0.5 else i.to_xml()
    elif op == "xpath":
        from yangson.schemadata import SchemaContext
        from yangson.xpathparser import XPathParser
        sctx = SchemaContext(dm.schema_data, "m-a", ("m-a", rev(dm)))
        if not isinstance(i.value, list):
            XPathParser(rng.choice(XP), sctx).parse().evaluate(i)
    elif op == "route":
        if not h.arr and h.path:
            r = i.instance_route()
            t = i.top()
            try:
                t.peek(r)
                t.goto(r)
            except YangsonException as e:     # decided by C08
                safe_str(e)
            str(r)
    elif op == "eq":
        o = rng.choice(hi.handles)
        i.value == o.inst.value
        if isinstance(i.value, (dict, list)):
            hash(i.value)
    elif op == "str":
        str(i) if not isinstance(i.value, (dict, list)) else repr(i.value)
    elif op == "lookups":
        i.json_pointer(), i.path, i.name, i.qual_name if h.path else None, i.is_internal()
        if isinstance(i.value, (dict, list)):
            list(i)
    hi.ctx.ev("op " + op)
    return new


def rev(dm):
    return [r for n, r in dm.schema_data.modules if n == "m-a"][0]


class Free(H):
    """Handle whose expected content is not tracked."""


def case(ctx, rng, prof=None, steps=30):
    prof = prof or Profile(typedefs=0.2, when=0.08, must=0.05, augment=2, default=0.5)
    prof.anydata = rng.choice([0, prof.anydata])
    m, dm = util.model(ctx, rng, prof)
    hi = History(ctx, rng, m, dm, tree=False, snap=True)
    h = hi.start()
    dflt = cr(h.inst.top().update({}, raw=True).add_defaults().raw_value())
    frees = []
    for n in range(steps):
        if rng.random() < 0.25:
            h = rng.choice(hi.handles)
        k = len(hi.log)
        if rng.random() < 0.35:
            new = observe(hi, h, dm)
            ctx.case([hi.log[-1], m.text()], new is not None and new is not h.inst)
            if not hi.recheck():
                return
            if new is not None and new is not h.inst:
                # a node with defaults is watched and edited as well, but not modelled
                f = Free(new, None, h.path, h.node, h.arr)
                hi.snaps.append((f, hi.picture(new), list(hi.log)))
                frees.append(f)
            continue
        if frees and rng.random() < 0.3:
            f = rng.choice(frees)
            edit_free(hi, f, frees)
            if not hi.recheck():
                return
            continue
        new = hi.step(h)
        if len(hi.log) > k:
            op = hi.log[-1]
            ctx.case([op, m.text()], op[0] in ("put_member", "delete_item", "update", "merge",
                                               "insert_before", "insert_after"), str(op)[:200])
            if not hi.recheck():
                return
        if new is not None:
            hi.add(new)
            h = new
    now = cr(hi.handles[0].inst.top().update({}, raw=True).add_defaults().raw_value())
    ctx.check(now == dflt, "schema-defaults", "defaults of the schema changed during the history",
              before=dflt, after=now, **hi.det())


def edit_free(hi, f, frees):
    """Edit a node that carries added defaults (these may be shared with the schema)."""
    rng, i = hi.rng, f.inst
    v = i.value
    try:
        if isinstance(v, dict) and v and not f.node.kw.startswith("any"):
            k = rng.choice(sorted(x for x in v if not x.startswith("@")))
            c, arr = hi.child(f, k) if not f.arr else (f.node, False)
            op = rng.choice(["member", "member", "delete", "merge", "put"])
            hi.log.append(["free " + op, f.path, k])
            if op == "member":
                new = Free(i[k], None, f.path + (k,), c, arr)
            elif op == "delete":
                new = Free(i.delete_item(k), None, f.path, f.node, f.arr)
            else:
                r = hi.member_value(c)
                if r is None:
                    return
                if op == "merge":
                    new = Free(i[k].merge(r[0], raw=True), None, f.path + (k,), c, arr)
                else:
                    new = Free(i.put_member(k, r[0], raw=True), None, f.path + (k,), c, arr)
        elif isinstance(v, list) and v and f.arr:
            op = rng.choice(["entry", "delete", "merge", "insert"])
            hi.log.append(["free " + op, f.path])
            j = rng.randrange(len(v))
            if op == "entry":
                new = Free(i[j], None, f.path + (j,), f.node)
            elif op == "delete":
                new = Free(i.delete_item(j), None, f.path, f.node, True)
            elif op == "merge":
                r = hi.member_value(f.node)
                if r is None:
                    return
                new = Free(i.merge(r[0], raw=True), None, f.path, f.node, True)
            else:
                r = hi.entry_value(f.node)
                if r is None:
                    return
                new = Free(i[j].insert_after(r[0], raw=True).up(), None, f.path, f.node, True)
        else:
            if not f.path:
                return
            hi.log.append(["free up", f.path])
            node, arr = hi.node_at(f.path[:-1])
            new = Free(i.up(), None, f.path[:-1], node, arr)
    except IndexError:
        return
    hi.ctx.ev("edits of nodes with defaults")
    hi.snaps.append((new, hi.picture(new.inst), list(hi.log)))
    frees.append(new)


def lists(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=3, when=0.05, must=0, unions=0.2, typedefs=0.1,
                           deviations=0, choice=0.1, default=0.6), 36)


class Annotated(History):
    """History whose values carry annotations."""

    def member_value(self, c):
        r = super().member_value(c)
        if r is None:
            return None
        w, x = {c.iname(): r[0]}, {c.iname(): r[1]}
        par = c.dparent() or self.lib.root
        c03.annotate(par, w, x, self.rng, 0.4, {})
        return w[c.iname()], None

    def entry_value(self, c):
        r = super().entry_value(c)
        if r is not None and isinstance(r[0], dict):
            c03.annotate(c, r[0], r[1], self.rng, 0.4, {})
        return r


def annotated(ctx, rng):
    """Annotated documents: annotations are shared between instances like any other value."""
    m, dm = c03.build(ctx, rng, Profile(depth=2, width=4, default=0.6, when=0.05, must=0, anydata=0, typedefs=0.2))
    hi = Annotated(ctx, rng, m, dm, tree=False, snap=True)
    while True:
        raw = hi.dg.obj(hi.lib.root)
        try:
            ri = rdata.decode(hi.lib.root, raw, hi.lib)
            break
        except rdata.RawErr as e:
            if not hi.dg.drop(raw, e.path):
                continue
    stat = {}
    c03.annotate(hi.lib.root, raw, rdata.encode(ri), rng, 0.5, stat)
    for k, n in stat.items():
        ctx.ev(k, n)
    hi.log.append(["from_raw", raw])
    f = Free(dm.from_raw(raw), None, (), hi.lib.root)
    hi.handles.append(f)
    hi.snaps.append((f, hi.picture(f.inst), list(hi.log)))
    frees = [f]
    for _ in range(30):
        f = rng.choice(frees[-6:]) if rng.random() < 0.6 else rng.choice(frees)
        if rng.random() < 0.4:
            new = observe(hi, f, dm)
            ctx.case([hi.log[-1], m.text()], new is not None and new is not f.inst)
            if new is not None and new is not f.inst:
                g = Free(new, None, f.path, f.node, f.arr)
                hi.snaps.append((g, hi.picture(new), list(hi.log)))
                frees.append(g)
        else:
            edit_free(hi, f, frees)
            ctx.case([hi.log[-1], m.text()], True)
            ctx.ev("edits of annotated nodes")
        if not hi.recheck():
            return


GROUPS = [Group("rich", case, 300, 2500), Group("lists", lists, 350, 3000), Group("annotated", annotated, 200, 2000)]
REQUIRE = {"earlier handles re-observed": 50000, "edits of nodes with defaults": 300, "op merge": 200,
           "op tag": 100, "op xpath": 200,
           "edits of annotated nodes": 1500, "annotated leaves": 100, "annotated objects": 100}
