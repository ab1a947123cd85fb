"""C17: errors are documented exceptions that point at the fault."""
import copy
import json
import os
import random
import re
import traceback
import xml.etree.ElementTree as ET
from vf import core, dgen, rdata, util, xgen
from vf.core import Group, safe_str
from vf.gen import Profile, gen_model
from vf.hist import freeze

PROPERTY = "C17"
RULE = ("hostile input (values of wrong kinds and sizes, strange member names, damaged XML, YANG library data, paths, identifiers "
        "and expressions) made from valid input by one or several changes, given to the public operations; one evaluation = one "
        "call; non-trivial = call that failed; every failure must be an exception of yangson.exceptions that can be printed, "
        "name a place at the change, and leave the objects made before as they were")
ASSUMPTIONS = ["input is nested at most 60 levels deep: Python's limit on recursion isn't an error of the library",
               "the modules in the library are correct YANG", "the JSON values are such as Python's json module can read or make"]

TEXTS = ["", " ", "x", "a b", "\x00", "\ud800", "é\U0001f600", "9" * 5000, "-" + "1" * 4400 + ".5", "true", "null", "1", "-1", "1.5", "1e5", "0x1F",
         "+1", " 1", "1 ", "1.", ".5", "m-a:", ":x", ":", "a:b:c", "m-a:x", "nosuch:x", "/", "//", "/m-a:", "/m-a:x[", "/m-a:c/", "/nosuch:x",
         "/m-a:c[.='", "/m-a:c[a='1'][", "/m-a:l[999999]", "/m-a:l[" + "9" * 4500 + "]", "@", "[", "]", "NaN", "Infinity", "-0", "٣", "１",
         "1\n", "\n", "%", "{}", "AA=", "AA==", "====", "A", "\u2028", "x" * 3000, "--1", "b0 b0", "b0  b1", "\t"]
SCALARS = [None, True, False, 0, -1, 1, 255, 1.5, -0.0, 1e300, float("inf"), float("nan"), 10 ** 30, -10 ** 30, 2 ** 63, 2 ** 64, 2 ** 31]
NESTED = [[], {}, [None], [[]], [{}], {"x": 1}, {"": None}, {"@": {}}, {"@": 1}, {"@x": {}}, [None, None], [[None]], {"m-a:x": {}}, [1, "x", None],
          [{"a": 1}], {":": []}, [{"@": {}}], {"@": {"m-a:x": 1}}]
NAMES = ["", ":", "a:", ":a", "a:b:c", "@", "@@", "@x", "@:", "@m-a:x", "é", "{", "m-a:", "m-a:nosuch", "nosuch:x", "nosuch", ".", "..", "*", "/",
         "m-a:a/b", "@m-a:nosuch", "@nosuch:x", "a b", "\x00", "\ud800", "m-b:nosuch", "1", "-", "@/", "~", "~1", "@@m-a:x", "'", "]", "m-t:x"]


def weird(rng, deep=2):
    r = rng.random()
    if r < 0.35:
        return rng.choice(TEXTS)
    if r < 0.65:
        return rng.choice(SCALARS)
    if r < 0.9 or not deep:
        return copy.deepcopy(rng.choice(NESTED))
    if r < 0.95:
        return [weird(rng, deep - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(NAMES): weird(rng, deep - 1) for _ in range(rng.randrange(4))}


def innermost(e):
    fn = [f.name for f in traceback.extract_tb(e.__traceback__) if "/yangson/" in f.filename]
    return fn[-1] if fn else "?"


class Watch:
    """Calls operations and judges how they fail."""

    def __init__(self, ctx, det):
        self.ctx, self.det = ctx, det

    def call(self, entry, fn, *args, show=None, ok=(), **kw):
        """(True, result) or (False, exception)."""
        from yangson import exceptions as ye
        ctx = self.ctx
        ctx.ev("calls of " + entry)
        sh = show if show is not None else args
        try:
            res = fn(*args, **kw)
        except ye.YangsonException as e:
            ctx.case([entry, repr(sh)[:3000]], True, f"{entry} {repr(sh)[:300]}: {type(e).__name__}")
            ctx.ev("failed " + entry)
            ctx.ev(type(e).__name__)
            try:
                s = str(e)
                good = isinstance(s, str)
                why = "" if good else "not a string"
            except core.CaseTimeout:
                raise
            except Exception as f:
                good, why = False, repr(f)[:300]
            ctx.check(good, f"unprintable:{type(e).__name__}", f"{entry}: {type(e).__name__} raised by {innermost(e)} can't be printed: {why}",
                      input=repr(sh)[:2000], **self.det)
            ctx.check(getattr(ye, type(e).__name__, None) is type(e), "undocumented", f"{entry}: {type(e)}", input=repr(sh)[:2000])
            return False, e
        except core.CaseTimeout:
            raise
        except Exception as e:
            if ok and isinstance(e, ok):
                ctx.case([entry, repr(sh)[:3000]], True)
                ctx.ev("failed " + entry)
                return False, e
            ctx.case([entry, repr(sh)[:3000]], True)
            self.ctx.fail(f"internal:{entry}:{type(e).__name__}:{innermost(e)}", f"{entry}: {type(e).__name__} {safe_str(e)[:300]}",
                          input=repr(sh)[:3000], traceback=traceback.format_exc()[-3000:], **self.det)
            return False, e
        ctx.case([entry, repr(sh)[:3000]], False)
        return True, res


# -- raw values ------------------------------------------------------------------

def places(v, path, out):
    """All places of a JSON value: (parent, key, path)."""
    if isinstance(v, dict):
        for k in v:
            out.append((v, k, path + (k,)))
            places(v[k], path + (k,), out)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out.append((v, i, path + (i,)))
            places(x, path + (i,), out)
    return out


def spoil(rng, doc, sch, root):
    """Change a document in one place; returns (document, path of the change, what)."""
    doc = copy.deepcopy(doc)
    ps = places(doc, (), [])
    k = rng.random()
    if not ps or k < 0.02:
        return weird(rng), (), "all"
    par, key, path = rng.choice(ps)
    if k < 0.5:
        par[key] = weird(rng)
        return doc, path, "replaced"
    if k < 0.6:
        par[key] = rng.choice([[par[key]], {str(key): par[key]}, str(par[key]), [par[key], par[key]], {"@": par[key]}])
        return doc, path, "wrapped"
    objs = [((), doc)] + [(p, par2[k2]) for par2, k2, p in ps if isinstance(par2[k2], dict)]
    p, o = rng.choice(objs)
    if k < 0.8:
        nm = rng.choice(NAMES)
        if rng.random() < 0.3 and o:
            nm = "@" + rng.choice(list(o))
        elif rng.random() < 0.4:
            nm = rng.choice(["m-a:", "m-b:", "", "@m-a:"]) + rng.choice(sch)
        o[nm] = weird(rng)
        return doc, p + (nm,), "added"
    if isinstance(par, dict) and k < 0.9:
        nm = rng.choice(NAMES) if rng.random() < 0.6 else rng.choice(["m-a:", "m-b:", "nosuch:", ":", "@"]) + key.rpartition(":")[2]
        x = par.pop(key)
        par[nm] = x
        return doc, path[:-1] + (nm,), "renamed"
    if isinstance(par, list):
        par.insert(key, weird(rng))
        return doc, path, "inserted"
    del par[key]
    return doc, path[:-1], "deleted"


class Places:
    """The places of a document as the library writes them, by schema node."""

    def __init__(self, root, doc):
        self.by = {}            # text -> list of paths
        self.add("", ())
        self.obj(root, doc, "", ())

    def add(self, text, path):
        self.by.setdefault(text, []).append(path)

    def obj(self, node, o, text, path):
        if not isinstance(o, dict):
            return
        for k, v in o.items():
            nm = k[1:] if k.startswith("@") else k
            t, p = text + "/" + nm, path + (k,)
            self.add(t, p)
            self.add(text + "/" + k, p)
            a, s, loc = nm.partition(":")
            c = None
            if node is not None:
                try:
                    c = node.dchild(*((a, loc) if s else (node.ns, a)))
                    if c is None:
                        c = node.child(*((a, loc) if s else (node.ns, a)))
                except (KeyError, AttributeError):
                    c = None
            if isinstance(v, list):
                for i, e in enumerate(v):
                    forms = {f"{t}/{i}"}
                    if c is not None and c.kw == "list" and isinstance(e, dict):
                        forms.add(t + "=" + ",".join(str(e.get(q[1], "<missing>")) for q in c.keys))
                    for f in forms:
                        self.add(f, p + (i,))
                        self.obj(c, e, f, p + (i,))
            else:
                self.obj(c, v, t, p)


def at(path, change):
    """Is a place at a change: within it, or its parent?"""
    return path[:len(change)] == change or path == change[:-1]


def raw(ctx, rng, prof=None):
    from yangson import exceptions as ye
    m, dm = util.model(ctx, rng, prof or Profile(typedefs=0.2, when=0.05, must=0.05, augment=2, keyless=0.2, anydata=0.1))
    lib = m.lib
    dg = dgen.DG(lib, rng, density=0.7)
    sch = sorted({n.name for n in lib.root.walk() if n.parent is not None})
    digest = dm.schema_digest()
    tree = dm.ascii_tree()
    w = Watch(ctx, {"model": util.model_text(lib)})
    for _ in range(2):
        doc = dg.obj(lib.root)
        ri, inst = first(doc, lib, dm)
        for n in range(40):
            d, where, what = spoil(rng, doc, sch, lib.root)
            single = True
            if rng.random() < 0.2:
                d, _, _ = spoil(rng, d, sch, lib.root) if isinstance(d, dict) else (d, (), "")
                single = False
            before = repr(d)
            ok, r = w.call("from_raw", dm.from_raw, d)
            ctx.check(repr(d) == before, "input-changed", "from_raw changed its argument", before=before[:2000], after=repr(d)[:2000])
            if not ok:
                if single and isinstance(r, (ye.RawDataError, ye.AnnotationException)) and what != "deleted":
                    placed(ctx, w, r, d, where, what, lib)
                elif isinstance(r, ye.YangsonException) and not isinstance(r, (ye.RawDataError, ye.AnnotationException)):
                    ctx.fail("wrong-exception", f"from_raw: {type(r).__name__}", input=d)
                continue
            use(ctx, rng, w, r, dm)
        edits(ctx, rng, w, m, dm, doc, inst, sch)
    ctx.check(dm.schema_digest() == digest, "model-changed", "schema digest differs after failing operations")
    ctx.check(dm.ascii_tree() == tree, "model-changed", "schema tree differs after failing operations")


def first(doc, lib, dm):
    return rdata.decode(lib.root, doc, lib), dm.from_raw(doc)


def placed(ctx, w, e, d, where, what, lib):
    pl = Places(lib.root, d).by.get(e.path)
    ctx.ev("places compared")
    if pl is None:
        ctx.fail("no-such-place", f"{type(e).__name__} at {e.path!r}, which isn't in the document; change at {where}",
                 input=d, error=str(e), **w.det)
        return
    ctx.check(any(at(p, where) for p in pl), "wrong-place",
              f"{type(e).__name__} at {e.path!r}; the change ({what}) is at {where}", input=d, error=str(e), **w.det)


def use(ctx, rng, w, inst, dm):
    """Operations on an instance made from a changed document."""
    from yangson import exceptions as ye
    sc = util.scope_enum(rng.choice(["all", "syntax", "semantics"]))
    ct = util.ctype_enum(rng.choice(["all", "config", "nonconfig"]))
    f = freeze(inst.value)
    ok, r = w.call("validate", inst.validate, sc, ct, show=("validate", sc.name, ct.name, repr(inst.value)[:1500]))
    if not ok and isinstance(r, ye.YangsonException):
        ctx.check(isinstance(r, ye.ValidationError), "wrong-exception", f"validate: {type(r).__name__}: {safe_str(r)[:300]}", doc=repr(inst.value)[:3000])
    if not ok and isinstance(r, ye.ValidationError):
        ctx.ev("validation errors located")
        rt = r.instance.instance_route()
        k, g = w.call("goto", inst.goto, rt, show=("goto", str(rt)))
        if k:
            ctx.check(g.value is r.instance.value or g.value == r.instance.value, "wrong-place", f"validation error at {rt}: another node")
    w.call("raw_value", inst.raw_value, show=("raw_value", repr(inst.value)[:1500]))
    ok, a = w.call("add_defaults", inst.add_defaults, ct, show=("add_defaults", repr(inst.value)[:1500]))
    if ok:
        w.call("raw_value", a.raw_value, show=("raw_value with defaults", repr(inst.value)[:1500]))
    # pick nodes
    node = inst
    for _ in range(rng.randrange(1, 6)):
        v = node.value
        try:
            if isinstance(v, dict) and v:
                node = node[rng.choice([k for k in v if not k.startswith("@")])]
            elif isinstance(v, list) and v:
                node = node[rng.randrange(len(v))]
            else:
                break
        except (ye.YangsonException, IndexError):
            break
        w.call("str", str, node, show=("str", str(node.path), repr(node.value)[:300]))
        w.call("instance_route", lambda: str(node.instance_route()), show=("instance_route", str(node.path)))
        w.call("json_pointer", node.json_pointer, show=("json_pointer", str(node.path)))
        w.call("raw_value", node.raw_value, show=("raw_value", str(node.path), repr(node.value)[:300]))
        w.call("hash", lambda: (hash(node.value) if isinstance(node.value, (dict, list)) else 0, node == node),
               show=("hash", str(node.path)))
    ctx.check(freeze(inst.value) == f, "instance-changed", "the value differs after these operations")


def edits(ctx, rng, w, m, dm, doc, inst, sch):
    """Editing operations with hostile arguments on nodes of a valid instance."""
    from yangson.instvalue import ArrayValue, ObjectValue
    nodes = [inst]

    def walk(i):
        v = i.value
        if isinstance(i.schema_node, (AnyC())):
            return
        if isinstance(v, ObjectValue):
            for k in list(v):
                if not k.startswith("@"):
                    c = i[k]
                    nodes.append(c)
                    walk(c)
        elif isinstance(v, ArrayValue):
            for k in range(len(v)):
                c = i[k]
                nodes.append(c)
                walk(c)
    walk(inst)
    snap = [(n, freeze(n.value), n.timestamp) for n in nodes]
    names = NAMES + ["m-a:" + s for s in sch[:20]] + sch[:20]
    for _ in range(60):
        n = rng.choice(nodes)
        nm = rng.choice(names) if rng.random() < 0.5 or not isinstance(n.value, dict) or not n.value else rng.choice(list(n.value))
        idx = rng.choice([0, 1, -1, 5, 10 ** 6, -10 ** 6, -2])
        key = nm if rng.random() < 0.6 else idx
        v = weird(rng)
        op = rng.randrange(14)
        sh = (str(n.path), key, v)
        if op == 0:
            w.call("[]", n.__getitem__, key, show=sh)
        elif op == 1:
            w.call("put_member", n.put_member, nm, v, True, show=sh)
        elif op == 2:
            w.call("delete_item", n.delete_item, key, show=sh)
        elif op == 3:
            w.call("update", n.update, v, True, show=sh)
        elif op == 4:
            w.call("merge", n.merge, v, True, show=sh)
        elif op in (5, 6) and hasattr(n, "insert_before"):
            w.call("insert", n.insert_before if op == 5 else n.insert_after, v, True, show=sh)
        elif op == 7:
            w.call("look_up", n.look_up, **{(nm or "x"): v}, show=sh)
        elif op == 8 and hasattr(n, "sibling"):
            w.call("sibling", n.sibling, nm, show=sh)
        elif op == 9:
            w.call("up", lambda: n.up().up(), show=sh)
        elif op == 10:
            w.call("iter", lambda: list(n), show=sh)
        elif op == 11 and hasattr(n, "next"):
            w.call("next", lambda: n.next().next().previous().previous().previous(), show=sh)
        elif op == 12:
            w.call("top", lambda: n.top().raw_value(), show=sh)
        elif op == 13 and n.is_internal():
            w.call("add_defaults", n.add_defaults, util.ctype_enum("all"), show=sh)
    for n, f, t in snap:
        ctx.check(freeze(n.value) == f and n.timestamp == t, "instance-changed", f"node at {n.path} changed by failing operations",
                  before=repr(f)[:2000], now=repr(n.value)[:2000])


def AnyC():
    from yangson.schemanode import AnyContentNode
    return AnyContentNode


# -- texts -----------------------------------------------------------------------

def damage(rng, s, chars):
    """(changed text, offset of the change)"""
    i = rng.randrange(len(s) + 1)
    k = rng.random()
    if k < 0.3:
        return s[:i] + rng.choice(chars) + s[i:], i
    if k < 0.55:
        return s[:i] + s[i + 1:], i
    if k < 0.8:
        return s[:i] + rng.choice(chars) + s[i + 1:], i
    return s[:i], i


IIDC = list("/[]='\":. \t1aé%,") + ["[1]", "[.='x']", "nosuch", "m-a:", "[x='y']", "[" + "9" * 4400 + "]", "=", "@", "[0]", "[-1]", "\x00", "\ud800"]
RIDC = list("/:=,%.é '\"[]?#&") + ["%2", "%zz", "%FF", "%C3", "nosuch", "m-a:", "=1", ",,", "=" + "9" * 4400, "//", "\x00", "\ud800", "%00"]
XPC = ["(", ")", "[", "]", "/", "//", "|", " and ", " or ", " div ", " mod ", "*", "=", "!=", "<", "+", "-", ",", ".", "..", "::", "1", "'x'", "foo",
       "!", "$x", "@a", "#", "'", '"', "a:b:c", "nosuch:x", "deref(.)", "deref(1)", "last()", "position()", "1 div 0", "9" * 500, "9" * 5000, "é",
       "re-match('a', '[')", "re-match(1, '(')", "bit-is-set(., 'x')", "enum-value(.)", "derived-from(., 'x')", "derived-from(., ':')", "substring('a', 0 div 0)",
       "string(1 div 0)", "floor(1 div 0)", "round(-1 div 0)", "ceiling(0 div 0)", "count(1)", "sum('x')", "id('x')", "lang('x')", "translate('a', 'b')",
       "comment()", "text()", "node()", "ancestor::", "attribute::x", "namespace::x", "preceding::x", "following::x", "processing-instruction('x')", "1.2.3",
       "\x00", "\ud800", ".[1 div 0]", ".[0 div 0]", "number('" + "9" * 5000 + "')", "string-length()", "normalize-space(1, 2)", "current()", "1e5",
       "1 div 0 = -1 div 0", "-(1 div 0)", "substring('abc', -1 div 0, 1 div 0)", "5 mod 0", "(1 div 0) mod 2"]


def texts(ctx, rng):
    from yangson import exceptions as ye
    from yangson.instance import InstanceRoute  # noqa: F401
    m, dm = util.model(ctx, rng, Profile(typedefs=0.3, when=0.03, must=0.03, augment=2, keyless=0.2, anydata=0.1, iid=0.1))
    lib = m.lib
    w = Watch(ctx, {"model": util.model_text(lib)})
    doc = dgen.DG(lib, rng, density=0.8).obj(lib.root)
    ri, inst = first(doc, lib, dm)
    f, ts = freeze(inst.value), inst.timestamp
    digest = dm.schema_digest()
    insts = []

    def walk(i, d):
        insts.append(i)
        v = i.value
        if isinstance(i.schema_node, AnyC()):
            return
        for k in ([k for k in v if not k.startswith("@")] if isinstance(v, dict) else range(len(v)) if isinstance(v, list) else ()):
            walk(i[k], d + 1)
    walk(inst, 0)
    sch = sorted({n.name for n in lib.root.walk() if n.parent is not None})
    for _ in range(60):
        n = rng.choice(insts)
        s = str(n.instance_route())
        t, i = damage(rng, s, IIDC)
        if rng.random() < 0.3:
            t, j = damage(rng, t, IIDC)
            i = min(i, j)
        address(ctx, rng, w, "parse_instance_id", dm.parse_instance_id, t, i, s, inst, n)
        s = rid_of(n)
        t, i = damage(rng, s, RIDC)
        if rng.random() < 0.3:
            t, j = damage(rng, t, RIDC)
            i = min(i, j)
        address(ctx, rng, w, "parse_resource_id", dm.parse_resource_id, t, i, s, inst, n)
        s = "/".join([""] + rng.choices(sch, k=rng.randrange(4)))
        s = rng.choice([n.schema_node.data_path() if hasattr(n.schema_node, "data_path") and n.schema_node.parent else "/", s, rng.choice(TEXTS), rng.choice(NAMES)])
        t, _ = damage(rng, s, IIDC)
        ok, r = w.call("get_data_node", dm.get_data_node, t)
        if not ok and isinstance(r, ye.YangsonException):
            ctx.check(isinstance(r, ye.InvalidSchemaPath), "wrong-exception", f"get_data_node: {type(r).__name__}", input=t)
        ok, r = w.call("get_schema_node", dm.get_schema_node, t)
        if not ok and isinstance(r, ye.YangsonException):
            ctx.check(isinstance(r, ye.InvalidSchemaPath), "wrong-exception", f"get_schema_node: {type(r).__name__}", input=t)
        sub = rng.choice(NAMES + TEXTS[:20] + ["m-a:" + rng.choice(sch)])
        ok, r = w.call("from_raw with subschema", dm.from_raw, {}, sub)
        ok, r = w.call("from_xml with subschema", dm.from_xml, ET.Element("{urn:vf:m-a}x"), sub)
    for _ in range(40):
        xpath(ctx, rng, w, m, dm, rng.choice(insts), sch)
    types(ctx, rng, w, insts)
    ctx.check(freeze(inst.value) == f and inst.timestamp == ts, "instance-changed", "instance changed by addresses or expressions")
    ctx.check(dm.schema_digest() == digest, "model-changed", "schema digest differs after failing operations")


def rid_of(n):
    """Resource identifier of an instance node."""
    from urllib.parse import quote
    from yangson.schemanode import ListNode, LeafListNode
    parts = []
    chain = []
    while True:
        chain.append(n)
        if n.parinst is None:
            break
        n = n.parinst
    chain.reverse()
    for x in chain[1:]:
        if type(x).__name__ == "ArrayEntry" and isinstance(x.schema_node, (ListNode, LeafListNode)):
            if isinstance(x.schema_node, ListNode):
                ks = [quote(str(x.value.get(k[0] if k[1] == x.schema_node.ns else k[1] + ":" + k[0], "")), safe="") for k in x.schema_node.keys]
            else:
                ks = [quote(str(x.value).encode("utf-8", "replace"), safe="")]
            if ks:
                parts[-1] += "=" + ",".join(ks)
        else:
            parts.append(x.name)
    return "/" + "/".join(parts)


def address(ctx, rng, w, entry, fn, t, i, s, inst, n):
    from yangson import exceptions as ye
    ok, r = w.call(entry, fn, t)
    if not ok:
        if isinstance(r, ye.ParserException):
            o = r.parser.offset
            # no fault before the step that was changed
            q, lo = None, 0
            for k, c in enumerate(t[:i]):
                if q:
                    q = None if c == q else q
                elif c in "'\"" and entry == "parse_instance_id":
                    q = c
                elif c in "/[":
                    lo = k
            lo -= 1
            try:
                fn(s)
            except ye.YangsonException:
                return              # has no valid beginning
            ctx.ev("offsets compared")
            ctx.check(lo <= o <= len(t), "wrong-offset", f"{entry}: {type(r).__name__} at {o} of {t[:300]!r}, which equals {s[:300]!r} up to {i}", **w.det)
        elif isinstance(r, ye.YangsonException):
            ctx.check(isinstance(r, (ye.NonexistentSchemaNode, ye.BadSchemaNodeType, ye.InvalidKeyValue, ye.NonDataNode)), "wrong-exception",
                      f"{entry}: {type(r).__name__}: {safe_str(r)[:200]}", input=t, **w.det)
        return
    w.call("str", str, r, show=("str of a route", t))
    base = rng.choice([inst, inst, n])
    ok, p = w.call("peek", base.peek, r, show=("peek", str(base.path), t))
    ok, g = w.call("goto", base.goto, r, show=("goto", str(base.path), t))
    if ok:
        w.call("str", lambda: (str(g.instance_route()), g.json_pointer(), g.path), show=("place", t))
    elif isinstance(g, ye.InstanceException):
        ctx.ev("missing nodes located")
        up = g.instance
        while up.parinst is not None:
            up = up.parinst
        ctx.check(up.value is inst.value, "wrong-place", f"goto {t!r} from {base.path}: error at {g.instance.path}, in another tree")
        bp, ep = tuple(base.path), tuple(g.instance.path)
        ctx.check(ep[:len(bp)] == bp, "wrong-place", f"goto {t!r} from {bp}: error at {ep}")


def xpath(ctx, rng, w, m, dm, n, sch):
    from yangson import exceptions as ye
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    md = next(x for x in m.lib.mods if x.name == "m-a")
    rev = dm.schema_data.implement["m-a"]
    good = rng.random() < 0.75
    if good:
        def path(d=2):
            t = rng.choice(["", "/", "../", "../../", "//", "./", ".//", "/"])
            for i in range(rng.randrange(1, 4)):
                t += ("/" if i else "") + rng.choice([rng.choice(sch), "m-a:" + rng.choice(sch), "m-a:" + rng.choice(sch), "*", "..", ".", "m-a:*"])
                if d and rng.random() < 0.3:
                    t += "[" + expr(d - 1) + "]"
            return t

        def expr(d=2):
            q = rng.random()
            if q < 0.3 or d <= 0:
                return rng.choice([path(0), path(0), ".", "'a'", "1", "last()", "position()", "1 div 0"])
            if q < 0.5:
                return expr(d - 1) + rng.choice([" = ", " and ", " or ", " < ", " + ", " mod ", " div ", " | ", " != ", "-", " * "]) + expr(d - 1)
            if q < 0.6:
                return rng.choice(XPC)
            if q < 0.85:
                return rng.choice(FUNCS).replace("P", path(d - 1)).replace("E", expr(d - 1)).replace("E", "1")
            return path(d)
        t = expr()
    else:
        toks = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            toks.append(rng.choice([rng.choice(sch), "m-a:" + rng.choice(sch), "/m-a:" + rng.choice(sch), "../" + rng.choice(sch), ".", "count(*)", "'a'", "1"]))
            toks.append(rng.choice(["/", "[", "]", " = ", "|", "+", " and ", "(", ")", "", " < ", " mod ", "//"]))
            if rng.random() < 0.4:
                toks.append(rng.choice(XPC))
        t = "".join(toks)
    ok, x = w.call("XPath parser", lambda: XPathParser(t, SchemaContext(dm.schema_data, "m-a", ("m-a", rev))).parse(), show=t)
    if not ok:
        if isinstance(x, ye.ParserException):
            ctx.check(0 <= x.parser.offset <= len(t), "wrong-offset", f"XPath {t!r}: {x.parser.offset}")
        elif isinstance(x, ye.YangsonException):
            ctx.check(isinstance(x, (ye.UnknownPrefix, ye.ModuleNotImported)), "wrong-exception", f"XPath parser: {type(x).__name__}", input=t)
        return
    ok, v = w.call("evaluate", x.evaluate, n, show=(t, str(n.path)))
    if not ok and isinstance(v, ye.YangsonException):
        ctx.check(isinstance(v, (ye.XPathTypeError, ye.InvalidXPath, ye.NotSupported, ye.UnknownPrefix, ye.InvalidArgument)), "wrong-exception", f"evaluate: {type(v).__name__}: {safe_str(v)[:200]}",
                  input=t, **w.det)
    w.call("str", str, x, show=("str of an expression", t))


FUNCS = ["count(P)", "sum(P)", "string(E)", "number(E)", "boolean(E)", "not(E)", "concat(E, E)", "contains(E, E)", "starts-with(E, E)", "substring(E, E)",
         "substring(E, E, E)", "substring-before(E, E)", "translate(E, E, E)", "string-length(E)", "normalize-space(E)", "name(P)", "local-name(P)",
         "floor(E)", "round(E)", "ceiling(E)", "deref(P)", "derived-from(P, 'm-a:x')", "derived-from-or-self(P, E)", "enum-value(P)", "bit-is-set(P, E)",
         "re-match(E, E)", "re-match(., '[')", "re-match('a', '(')", "current()", "name(E)", "sum(E)", "count(E)", "id(E)", "namespace-uri(P)"]


def types(ctx, rng, w, insts):
    for _ in range(40):
        n = rng.choice(insts)
        t = getattr(n.schema_node, "type", None)
        if t is None:
            continue
        v = weird(rng)
        name = type(t).__name__
        ok, r = w.call("type.from_raw", t.from_raw, v, show=(name, v))
        if ok and r is not None:
            w.call("type.contains", t.__contains__, r, show=(name, v))
        s = rng.choice(TEXTS)
        ok, r = w.call("type.parse_value", t.parse_value, s, show=(name, s))
        if ok and r is not None:
            w.call("type.canonical_string", t.canonical_string, r, show=(name, s))
            w.call("type.to_raw", t.to_raw, r, show=(name, s))
        w.call("str", str, t, show=("str of a type", name))


# -- XML ---------------------------------------------------------------------------

def xml(ctx, rng):
    from yangson import exceptions as ye
    from yangson.xmlparser import XMLParser
    m, dm = util.model(ctx, rng, Profile(typedefs=0.2, when=0.03, must=0.03, augment=2, keyless=0.2, anydata=0, iid=0.05))
    lib = m.lib
    w = Watch(ctx, {"model": util.model_text(lib)})
    sch = sorted({n.name for n in lib.root.walk() if n.parent is not None})
    dg = dgen.DG(lib, rng, density=0.7)
    for _ in range(3):
        doc = dg.obj(lib.root)
        inst = dm.from_raw(doc)
        try:
            text = ET.tostring(inst.to_xml(), encoding="unicode")
        except ValueError:
            continue
        for _ in range(25):
            k = rng.random()
            if k < 0.3:
                t, _ = damage(rng, text, list("<>/&;\"'= x") + ["<a/>", "&#0;", "]]>", "<![CDATA[x]]>", "<!-- x -->", "<?x y?>", "&nbsp;", ' xmlns=""', ' a="b"', ' xmlns:p="urn:x"', "p:"])
            else:
                t = text
            try:
                root = XMLParser(t).root
            except ET.ParseError:
                ctx.ev("texts not well-formed")
                continue
            if root is None:
                continue
            change = None
            if k >= 0.3:
                change = spoil_xml(rng, root, sch)
            shown = ET.tostring(root, encoding="unicode") if not any("\x00" in (e.text or "") for e in root.iter()) else "(control characters)"
            ok, r = w.call("from_xml", dm.from_xml, root, show=shown)
            if ok:
                use(ctx, rng, w, r, dm)
            elif isinstance(r, ye.YangsonException):
                ctx.check(isinstance(r, (ye.RawDataError, ye.MissingModuleNamespace)), "wrong-exception", f"from_xml: {type(r).__name__}", input=shown)
                if isinstance(r, ye.RawDataError) and change is not None:
                    placed_xml(ctx, w, r, root, change, lib, dm, shown)


def spoil_xml(rng, root, sch):
    """Change one element; returns it (or the element it was added to)."""
    els = list(root.iter())
    e = rng.choice(els[1:] or els)
    if e is root:
        e.append(ET.Element("{urn:vf:m-a}nosuch"))
        return e[-1]
    k = rng.random()
    ns = e.tag.rpartition("}")[0][1:]
    if k < 0.35:
        e.text = rng.choice([t for t in TEXTS if "\x00" not in t and "\ud800" not in t])
    elif k < 0.55:
        e.tag = rng.choice(["{%s}nosuch" % ns, "{urn:nosuch}x", "nosuch", "{%s}%s" % (ns, rng.choice(sch)), "{}x", "{urn:vf:m-b}" + rng.choice(sch)])
    elif k < 0.8:
        c = ET.Element(rng.choice(["{%s}nosuch" % ns, "{urn:nosuch}x", "nosuch", "{%s}%s" % (ns, rng.choice(sch))]))
        c.text = rng.choice(["", "x", None, "1"])
        if rng.random() < 0.3:
            ET.SubElement(c, rng.choice(["{%s}x" % ns, "y"]))
        e.insert(0, c)
        return c if k < 0.75 else e
    elif k < 0.9:
        for c in list(e):
            e.remove(c)
    else:
        e.attrib[rng.choice(["a", "{urn:nosuch}b", "{urn:vf:m-a}c", "xmlns:q", "xmlns", "{urn:ietf:params:xml:ns:netconf:default:1.0}default"])] = rng.choice(["", "x", "urn:vf:m-a"])
    return e


def placed_xml(ctx, w, e, root, change, lib, dm, shown):
    """The path of an error in XML input: names down to the element, and indices."""
    want = {}
    uris = {m.namespace: m.name for m in lib.mods} if hasattr(lib.mods[0], "namespace") else {}
    sd = dm.schema_data

    def mod(tag, up):
        if tag[0] == "{":
            u, _, n = tag[1:].partition("}")
            return (sd.modules_by_ns[u].yang_id[0] if u in sd.modules_by_ns else None), n
        return up, tag

    def walk(el, node, texts, up, inside):
        cnt = {}
        for i, c in enumerate(el):
            q = mod(c.tag, up)
            here = inside or c is change
            nm = q[1] if q[0] == up else f"{q[0]}:{q[1]}"
            k = cnt[q] = cnt.get(q, -1) + 1
            sn = node.dchild(*q) if node is not None and q[0] is not None else None
            ts = set()
            for t in texts:
                for nn in {nm}:
                    ts.add(t + "/" + nn)
                    if sn is not None and sn.kw in ("list", "leaf-list"):
                        ts.add(f"{t}/{nn}/{k}")
                        if sn.kw == "list" and sn.keys:
                            vs = []
                            for kk in sn.keys:
                                x = next((y for y in c if mod(y.tag, sn.ns)[1] == kk[1]), None)
                                vs.append("<missing>" if x is None else x.text or "")
                            ts.add(f"{t}/{nn}=" + ",".join(vs))
            for t in ts:
                want.setdefault(t, []).append(here or c is change or any(x is change for x in c))
            walk(c, sn, ts, q[0] or up, here)
    walk(root, lib.root, {""}, None, False)
    want.setdefault("", []).append(any(x is change for x in root) or change is root)
    ctx.ev("places compared")
    if e.path not in want:
        ctx.fail("no-such-place", f"{type(e).__name__} at {e.path!r}, which isn't in the document; change at {change.tag}", input=shown, **w.det)
        return
    ctx.check(any(want[e.path]), "wrong-place", f"{type(e).__name__} at {e.path!r}; the change is at {change.tag}", input=shown, **w.det)


# -- YANG library ---------------------------------------------------------------------

LIBV = [None, True, 0, 1.5, "", "x", "implement", "import", "2020-13-45", "m-a", "m-b", [], {}, [None], [[]], [{}], {"name": "x"}, "é", "a/b", "\x00", [1], ["x"], "..",
        "\ud800", -1, "nosuch"]
LIBN = ["name", "revision", "namespace", "feature", "submodule", "deviation", "conformance-type", "schema", "x", "", "yangson-yl:keep-obsolete", "module"]


def library(ctx, rng):
    from yangson import DataModel
    from yangson import exceptions as ye
    m = gen_model(rng, Profile(depth=1, width=3, typedefs=0.2, when=0.02, must=0.02, augment=1))
    d = ctx.tmpdir()
    m.write(d, rng)
    lib = m.yang_library()
    text = json.dumps(lib)
    w = Watch(ctx, {"library": text})
    for _ in range(40):
        k = rng.random()
        if k < 0.15:
            t, _ = damage(rng, text, list('{}[]",:0x') + ["null", "NaN", "\\u0000", "\\ud800", "é"])
        else:
            x = copy.deepcopy(lib)
            for _ in range(rng.choice([1, 1, 2])):
                ps = places(x, (), [])
                if not ps:
                    break
                par, key, path = rng.choice(ps)
                q = rng.random()
                if q < 0.45:
                    par[key] = copy.deepcopy(rng.choice(LIBV))
                elif q < 0.6:
                    del par[key]
                elif q < 0.7 and isinstance(par, list):
                    par.append(copy.deepcopy(par[key]))
                elif q < 0.8 and isinstance(par, dict):
                    par[rng.choice(LIBN)] = copy.deepcopy(rng.choice(LIBV))
                elif isinstance(par, dict):
                    par[rng.choice(LIBN)] = par.pop(key)
                else:
                    par[key] = [par[key]]
            t = json.dumps(x) if rng.random() > 0.02 else json.dumps(rng.choice(LIBV))
        ok, dm = w.call("DataModel", DataModel, t, (d,), show=t)
        if ok:
            w.call("schema_digest", dm.schema_digest, show=("schema_digest", t))
            w.call("ascii_tree", dm.ascii_tree, show=("ascii_tree", t))
            w.call("module_set_id", dm.module_set_id, show=("module_set_id", t))
            w.call("from_raw", dm.from_raw, {}, show=("from_raw", t))


GROUPS = [Group("raw", raw, 120, 1500), Group("texts", texts, 100, 1200), Group("xml", xml, 100, 1200), Group("library", library, 60, 800)]
REQUIRE = {"places compared": 4000, "offsets compared": 2000, "validation errors located": 1500, "failed from_raw": 4000, "failed DataModel": 800,
           "failed from_xml": 1500, "missing nodes located": 800, "calls of evaluate": 1500, "failed evaluate": 20, "RawTypeError": 500,
           "RawMemberError": 500}
