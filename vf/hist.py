"""Random histories of instance operations, run on the real code and on a
plain tree of objects and arrays at the same time."""
import time
from datetime import datetime
from . import dgen, rdata, util
from .core import safe_str
from .dgen import NoValue


def cr(x):
    return rdata.canon_raw(x)


def getp(doc, path):
    for s in path:
        doc = doc[s]
    return doc


def setp(doc, path, val):
    """Persistent replacement in a plain tree."""
    if not path:
        return val
    s = path[0]
    if isinstance(doc, dict):
        d = dict(doc)
        d[s] = setp(doc[s], path[1:], val) if len(path) > 1 else val
        return d
    d = list(doc)
    d[s] = setp(doc[s], path[1:], val)
    return d


def rmerge(node, a, b, entry=False):
    """Reference merge of canonical raw values, node: RNode."""
    if node.kw in ("leaf", "anydata", "anyxml"):
        return b
    if node.kw == "leaf-list":
        if entry:
            return b
        have = {cr(x) for x in a}
        return a + [x for x in b if cr(x) not in have]
    if node.kw == "list" and not entry:
        if not a:
            return b
        if not node.keys:
            return a + b
        ks = [node.dchild(*k).iname() for k in node.keys]
        idx = {}
        for x in b:
            idx[cr([x[k] for k in ks])] = x
        out = []
        for x in a:
            k = cr([x[k] for k in ks])
            out.append(rmerge(node, x, idx.pop(k), True) if k in idx else x)
        return out + [x for x in b if cr([x[k] for k in ks]) in idx]
    out = dict(a)
    for k, v in b.items():
        if k in a:
            p, s, loc = k.partition(":")
            c = node.dchild(p if s else node.ns, loc if s else p)
            out[k] = rmerge(c, a[k], v)
        else:
            out[k] = v
    return out


def canon_member(c, raw, lib):
    """Canonical raw value of a member of schema node c."""
    e = rdata.RI(c.dparent() or lib.root, None)
    e.lib = lib
    rdata._decode_member(e, c, raw, ())
    return rdata.encode(e).get(c.iname())


def canon_entry(c, raw, lib):
    return canon_member(c, [raw], lib)[0]


def freeze(v):
    """Deep picture of a cooked value with types and time stamps."""
    if isinstance(v, dict):
        return ("O", getattr(v, "timestamp", None),
                tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, list):
        return ("A", getattr(v, "timestamp", None), tuple(freeze(x) for x in v))
    return (type(v).__name__, repr(v))


class H:
    """A handle: real instance node and what it must be."""

    def __init__(self, inst, doc, path, node, arr=False):
        self.inst, self.doc, self.path, self.node, self.arr = inst, doc, path, node, arr
        self.edits = ()         # (path, time) of the edits that led here

    @property
    def val(self):
        return getp(self.doc, self.path)

    def kind(self):
        if self.arr:
            return "array"
        if isinstance(self.val, dict) and self.node.kw in ("root", "container", "list"):
            return "object"
        return "scalar"

    def is_entry(self):
        return bool(self.path) and isinstance(self.path[-1], int)


class History:
    def __init__(self, ctx, rng, m, dm, tree=True, snap=False, times=False, observe=0.0):
        self.ctx, self.rng, self.m, self.dm = ctx, rng, m, dm
        self.lib = m.lib
        self.tree, self.snap, self.times, self.observe = tree, snap, times, observe
        self.log = []
        self.handles = []
        self.snaps = []
        self.dg = dgen.DG(self.lib, rng, state=True, density=rng.choice([0.4, 0.7]))
        self.pool = []           # cooked values that may be shared

    def det(self, **kw):
        d = {"history": list(self.log), "model": util.model_text(self.lib)}
        d.update(kw)
        return d

    # -- start -----------------------------------------------------------
    def start(self):
        while True:
            raw = self.dg.obj(self.lib.root)
            try:
                ri = rdata.decode(self.lib.root, raw, self.lib)
                break
            except rdata.RawErr as e:
                if not self.dg.drop(raw, e.path):
                    continue
        self.log.append(["from_raw", raw])
        inst = self.dm.from_raw(raw)
        h = H(inst, rdata.encode(ri), (), self.lib.root)
        self.add(h)
        return h

    def add(self, h):
        self.handles.append(h)
        if self.tree:
            self.check(h)
        if self.snap:
            self.snaps.append((h, self.picture(h.inst), list(self.log)))
        return h

    def check(self, h):
        i, ctx = h.inst, self.ctx
        if not ctx.check(i.path == h.path, "path", f"path {i.path}, expected {h.path}", **self.det()):
            return
        v = i.raw_value()
        ctx.check(cr(v) == cr(h.val), "value", lambda: f"value at {h.path} differs",
                  got=v, want=h.val, **self.det())
        t = i.top()
        tv = t.raw_value()
        ctx.check(cr(tv) == cr(h.doc) and t.path == (), "root",
                  lambda: f"value at the root differs (focus {h.path})",
                  got=tv, want=h.doc, **self.det())
        if h.path:
            last = h.path[-1]
            if isinstance(last, int):
                arr = getp(h.doc, h.path[:-1])
                ok = i.index == last and i.name == h.path[-2] and \
                    len(i.before) == last and len(i.after) == len(arr) - last - 1
                ctx.check(ok, "entry-position", f"index {i.index} name {i.name} before "
                          f"{len(i.before)} after {len(i.after)}, expected {h.path} of {len(arr)}",
                          **self.det())
            else:
                sibs = getp(h.doc, h.path[:-1])
                ctx.check(i.name == last and set(i.siblings) == set(sibs) - {last},
                          "member-siblings", f"name {i.name} siblings {sorted(i.siblings)}",
                          **self.det())
            ctx.check(i.qual_name == (h.node.name, h.node.ns), "qual-name",
                      f"{i.qual_name}", **self.det())
        ctx.ev("handles compared with the plain tree")

    def picture(self, i):
        try:
            raw = cr(i.raw_value())
        except Exception as e:
            raw = repr(e)
        return {"path": i.path, "pointer": i.json_pointer(), "raw": raw,
                "timestamp": i.timestamp, "value": freeze(i.value),
                "siblings": freeze(dict(getattr(i, "siblings", {}))),
                "before": freeze(list(getattr(i, "before", []))),
                "after": freeze(list(getattr(i, "after", []))),
                "schema": id(i.schema_node), "parent": id(i.parinst),
                "hash": hash(i.value) if isinstance(i.value, (dict, list)) else None,
                "root": cr(i.top().raw_value()) if i.parinst or not i.path else None}

    def recheck(self):
        """All earlier handles must look as they did."""
        for h, pic, log in self.snaps:
            now = self.picture(h.inst)
            self.ctx.ev("earlier handles re-observed")
            if now != pic:
                k = [k for k in pic if now[k] != pic[k]]
                self.ctx.fail("changed:" + k[0], f"handle {pic['path']} obtained after {len(log)} "
                              f"steps changed its {k} by step {self.log[-1]}",
                              before=[str(pic[x])[:1500] for x in k],
                              after=[str(now[x])[:1500] for x in k], **self.det())
                return False
        for v, pic in self.pool:
            if freeze(v) != pic:
                self.ctx.fail("changed:argument", f"value passed to an earlier operation "
                              f"changed by step {self.log[-1]}", **self.det())
                return False
        return True

    # -- values ------------------------------------------------------------
    def member_value(self, c):
        """(raw, canonical) of a member."""
        for _ in range(6):
            try:
                raw = self.dg.node(c)
                can = canon_member(c, raw, self.lib)
            except (NoValue, rdata.RawErr):
                continue
            return raw, can
        return None

    def entry_value(self, c):
        for _ in range(6):
            try:
                raw = dgen.gen_value(c.type, self.rng) if c.kw == "leaf-list" else self.dg.obj(c)
                can = canon_entry(c, raw, self.lib)
            except (NoValue, rdata.RawErr):
                continue
            return raw, can
        return None

    def cook(self, inst_parent, c, raw, entry=False):
        """Cooked form of a raw value, obtained through the public interface."""
        path, last = "", None
        for ns, n in c.spath():
            path += "/" + (n if ns == last else f"{ns}:{n}")
            last = ns
        sn = self.dm.get_schema_node(path)
        v = sn.from_raw([raw] if entry else raw, "/x")
        v = v[0] if entry else v
        self.pool.append((v, freeze(v)))
        return v

    def value_for(self, h):
        """(args, canonical) for replacing the value of h itself."""
        entry = h.is_entry()
        if h.node.kw == "root":
            r = self.dg.obj(h.node)
            try:
                can = rdata.encode(rdata.decode(h.node, r, self.lib))
            except rdata.RawErr:
                return None
            return (r, True), can, r
        r = self.entry_value(h.node) if entry else self.member_value(h.node)
        if r is None:
            return None
        raw, can = r
        if self.rng.random() < 0.35:
            return (self.cook(h.inst, h.node, raw, entry), False), can, raw
        return (raw, True), can, raw

    # -- operations ----------------------------------------------------------
    NAV = ["member", "entry", "up", "top", "next", "previous", "sibling", "look_up", "iter"]
    EDIT = ["put", "delete", "insert_before", "insert_after", "insert_after", "update", "merge"]
    BAD = ["bad_member", "bad_entry", "bad_up", "bad_next", "bad_sibling", "bad_put", "bad_delete",
           "bad_look_up"]

    def step(self, h):
        """Perform one random operation on h; returns the new handle or None."""
        rng = self.rng
        r = rng.random()
        ops = self.NAV if r < 0.5 else self.EDIT if r < 0.92 else self.BAD
        for _ in range(12):
            op = rng.choice(ops)
            res = getattr(self, "op_" + op)(h)
            if res is not None:
                self.ctx.ev("op " + op)
                if self.times and isinstance(res, H):
                    if op in self.EDIT:
                        self.times_after(h, res, op)
                    self.lineage(h, res, op)
                if isinstance(res, H):
                    return res
                return None
        return None

    def note(self, *a):
        self.log.append(list(a))
        if self.times:
            t = datetime.now()
            while datetime.now() <= t:
                pass
            self.t0 = datetime.now()
            while datetime.now() <= self.t0:
                pass

    def child(self, h, k):
        if h.arr:
            return h.node, False
        p, s, loc = k.partition(":")
        c = h.node.dchild(p if s else h.node.ns, loc if s else p)
        return c, c.kw in ("list", "leaf-list")

    def arg_name(self, h, k):
        """A member name, sometimes redundantly qualified."""
        if ":" not in k and self.rng.random() < 0.15:
            return f"{h.node.ns}:{k}"
        return k

    def op_member(self, h):
        if h.kind() != "object" or not h.val:
            return None
        k = self.rng.choice(sorted(h.val))
        c, arr = self.child(h, k)
        a = self.arg_name(h, k)
        self.note("member", h.path, a)
        return H(h.inst[a], h.doc, h.path + (k,), c, arr)

    def op_entry(self, h):
        if h.kind() != "array" or not h.val:
            return None
        i = self.rng.randrange(-len(h.val), len(h.val))
        self.note("entry", h.path, i)
        return H(h.inst[i], h.doc, h.path + (i % len(h.val),), h.node)

    def op_up(self, h):
        if not h.path:
            return None
        self.note("up", h.path)
        return self.above(h, h.inst.up(), 1)

    def above(self, h, inst, n=1, doc=None):
        path = h.path[:-n]
        node, arr = self.node_at(path)
        return H(inst, doc or h.doc, path, node, arr)

    def node_at(self, path):
        node, arr = self.lib.root, False
        for k in path:
            if isinstance(k, int):
                arr = False
                continue
            p, s, loc = k.partition(":")
            node = node.dchild(p if s else node.ns, loc if s else p)
            arr = node.kw in ("list", "leaf-list")
        return node, arr

    def op_top(self, h):
        if not h.path or self.rng.random() < 0.6:
            return None
        self.note("top", h.path)
        return H(h.inst.top(), h.doc, (), self.lib.root)

    def op_next(self, h, d=1):
        if not h.is_entry():
            return None
        i = h.path[-1] + d
        if not 0 <= i < len(getp(h.doc, h.path[:-1])):
            return None
        self.note("next" if d > 0 else "previous", h.path)
        return H(h.inst.next() if d > 0 else h.inst.previous(), h.doc, h.path[:-1] + (i,), h.node)

    def op_previous(self, h):
        return self.op_next(h, -1)

    def op_sibling(self, h):
        if not h.path or h.is_entry():
            return None
        ks = sorted(set(getp(h.doc, h.path[:-1])) - {h.path[-1]})
        if not ks:
            return None
        k = self.rng.choice(ks)
        par, _ = self.node_at(h.path[:-1])
        a = k
        if ":" not in k and self.rng.random() < 0.15:
            a = f"{par.ns}:{k}"
        path = h.path[:-1] + (k,)
        node, arr = self.node_at(path)
        self.note("sibling", h.path, a)
        return H(h.inst.sibling(a), h.doc, path, node, arr)

    def op_look_up(self, h):
        if h.kind() != "array" or h.node.kw != "list" or not h.val:
            return None
        i = self.rng.randrange(len(h.val))
        e = h.val[i]
        leaves = [c for c in h.node.dchildren() if c.kw == "leaf" and c.iname() in e]
        if h.node.keys and self.rng.random() < 0.7:
            ks = [h.node.dchild(*k) for k in h.node.keys]
            if any(c.iname() not in e for c in ks):
                return None
        elif leaves:
            ks = self.rng.sample(leaves, self.rng.randint(1, min(2, len(leaves))))
        else:
            return None
        want = None
        for j, x in enumerate(h.val):
            if all(c.iname() in x and cr(x[c.iname()]) == cr(e[c.iname()]) for c in ks):
                want = j
                break
        raw = self.rng.random() < 0.5
        args = {c.iname(): e[c.iname()] for c in ks}
        if any(k in ("self", "raw") for k in args):
            return None
        self.note("look_up", h.path, args, raw)
        if not raw:
            args = {c.iname(): h.inst.value[i][c.iname()] for c in ks}
        return H(h.inst.look_up(raw, **args), h.doc, h.path + (want,), h.node)

    def op_iter(self, h):
        if h.kind() == "object":
            self.note("iter", h.path)
            names = list(h.inst)
            self.ctx.check(sorted(names) == sorted(h.val), "iter-members",
                           f"{names} vs {list(h.val)}", **self.det())
            return True
        if h.kind() == "array":
            self.note("iter", h.path)
            ens = list(h.inst)
            if not self.ctx.check(len(ens) == len(h.val), "iter-entries",
                                  f"{len(ens)} entries of {len(h.val)}", **self.det()):
                return True
            for i, e in enumerate(ens):
                self.ctx.check(e.path == h.path + (i,) and cr(e.raw_value()) == cr(h.val[i]),
                               "iter-entries", f"entry {i} differs", **self.det())
            if ens:
                i = self.rng.randrange(len(ens))
                return H(ens[i], h.doc, h.path + (i,), h.node)
            return True
        return None

    # -- editing -----------------------------------------------------------
    def op_put(self, h):
        if h.kind() != "object":
            return None
        cs = [c for c in h.node.dchildren()]
        if not cs:
            return None
        c = self.rng.choice(cs)
        r = self.member_value(c)
        if r is None:
            return None
        raw, can = r
        k = c.iname()
        a = self.arg_name(h, k)
        args = (raw, True)
        if self.rng.random() < 0.35:
            args = (self.cook(h.inst, c, raw), False)
        self.note("put_member", h.path, a, raw, args[1])
        new = h.inst.put_member(a, *args)
        path = h.path + (k,)
        return H(new, setp(h.doc, path, can), path, c, c.kw in ("list", "leaf-list"))

    def op_delete(self, h):
        if h.kind() == "scalar" or not h.val:
            return None
        if h.arr:
            i = self.rng.randrange(-len(h.val), len(h.val))
            v = list(h.val)
            del v[i]
            k = i
        else:
            i = self.rng.choice(sorted(h.val))
            v = dict(h.val)
            del v[i]
            k = self.arg_name(h, i)
        self.note("delete_item", h.path, k)
        return H(h.inst.delete_item(k), setp(h.doc, h.path, v), h.path, h.node, h.arr)

    def op_insert_before(self, h, d=0):
        if not h.is_entry():
            return None
        r = self.entry_value(h.node)
        if r is None:
            return None
        raw, can = r
        args = (raw, True)
        if self.rng.random() < 0.35:
            args = (self.cook(h.inst, h.node, raw, True), False)
        self.note("insert_after" if d else "insert_before", h.path, raw, args[1])
        new = h.inst.insert_after(*args) if d else h.inst.insert_before(*args)
        arr = list(getp(h.doc, h.path[:-1]))
        i = h.path[-1] + d
        arr.insert(i, can)
        return H(new, setp(h.doc, h.path[:-1], arr), h.path[:-1] + (i,), h.node)

    def op_insert_after(self, h):
        return self.op_insert_before(h, 1)

    def op_update(self, h):
        r = self.value_for(h)
        if r is None or (not h.path and self.rng.random() < 0.8):
            return None
        args, can, raw = r
        self.note("update", h.path, raw, args[1])
        return H(h.inst.update(*args), setp(h.doc, h.path, can), h.path, h.node, h.arr)

    def op_merge(self, h):
        r = self.value_for(h)
        if r is None:
            return None
        args, can, raw = r
        if not unique_keys(h.node, h.val, h.is_entry()) or \
                not unique_keys(h.node, can, h.is_entry()):
            return None
        self.note("merge", h.path, raw, args[1])
        new = h.inst.merge(*args)
        v = h.val
        want = can if not v and isinstance(v, (dict, list)) else rmerge(h.node, v, can, h.is_entry())
        return H(new, setp(h.doc, h.path, want), h.path, h.node, h.arr)

    # -- operations without a target ---------------------------------------
    def expect(self, names, fn, *note):
        self.note(*note)
        try:
            r = fn()
        except Exception as e:
            self.ctx.check(type(e).__name__ in names, "bad-op:" + note[0],
                           lambda: f"{note}: expected {names}, got {type(e).__name__}: "
                           f"{safe_str(e)}", **self.det())
            s = str(e)
            self.ctx.ev("failing operations")
            return True
        self.ctx.fail("bad-op:" + note[0], f"{note}: expected {names}, got {safe_str(r)}",
                      **self.det())
        return True

    def absent(self, h):
        return [c.iname() for c in h.node.dchildren() if c.iname() not in h.val]

    def op_bad_member(self, h):
        if h.kind() == "scalar":
            if h.node.kw in ("anydata", "anyxml"):
                return None
            return self.expect(["InstanceValueError"], lambda: h.inst["x"], "member of scalar", h.path)
        if h.kind() == "object":
            k = self.rng.choice(self.absent(h) + ["nonexistent", "m-a:nonexistent"])
            return self.expect(["NonexistentInstance"], lambda: h.inst[k], "absent member", h.path, k)
        return self.expect(["NonexistentInstance"], lambda: h.inst["x"], "member of array", h.path)

    def op_bad_entry(self, h):
        if h.kind() == "array":
            i = self.rng.choice([len(h.val), len(h.val) + 3, -len(h.val) - 1])
            return self.expect(["NonexistentInstance"], lambda: h.inst[i], "absent entry", h.path, i)
        if h.kind() == "object":
            return self.expect(["NonexistentInstance"], lambda: h.inst[0], "entry of object", h.path)
        return None

    def op_bad_up(self, h):
        if h.path:
            return None
        return self.expect(["NonexistentInstance"], lambda: h.inst.up(), "up of root")

    def op_bad_next(self, h):
        if not h.is_entry():
            return None
        if h.path[-1] == 0:
            return self.expect(["NonexistentInstance"], h.inst.previous, "previous of first", h.path)
        if h.path[-1] == len(getp(h.doc, h.path[:-1])) - 1:
            return self.expect(["NonexistentInstance"], h.inst.next, "next of last", h.path)
        return None

    def op_bad_sibling(self, h):
        if not h.path or h.is_entry():
            return None
        par = getp(h.doc, h.path[:-1])
        pn, _ = self.node_at(h.path[:-1])
        ks = [c.iname() for c in pn.dchildren() if c.iname() not in par]
        if ks and self.rng.random() < 0.6:
            k = self.rng.choice(ks)
            return self.expect(["NonexistentInstance"], lambda: h.inst.sibling(k),
                               "absent sibling", h.path, k)
        return self.expect(["NonexistentSchemaNode"], lambda: h.inst.sibling("m-a:nonexistent"),
                           "unknown sibling", h.path)

    def op_bad_put(self, h):
        if h.kind() == "object":
            return self.expect(["NonexistentSchemaNode"],
                               lambda: h.inst.put_member("m-a:nonexistent", 1),
                               "put unknown member", h.path)
        if h.node.kw in ("anydata", "anyxml"):
            return None
        return self.expect(["InstanceValueError"], lambda: h.inst.put_member("x", 1),
                           "put member of non-object", h.path)

    def op_bad_delete(self, h):
        if h.kind() == "object":
            k = self.rng.choice(self.absent(h) + ["nonexistent"])
            return self.expect(["NonexistentInstance"], lambda: h.inst.delete_item(k),
                               "delete absent member", h.path, k)
        if h.kind() == "array":
            i = self.rng.choice([len(h.val), -len(h.val) - 1])
            return self.expect(["NonexistentInstance"], lambda: h.inst.delete_item(i),
                               "delete absent entry", h.path, i)
        if h.node.kw in ("anydata", "anyxml"):
            return None
        return self.expect(["InstanceValueError"], lambda: h.inst.delete_item("x"),
                           "delete item of scalar", h.path)

    def op_bad_look_up(self, h):
        if h.kind() == "array" and h.node.kw == "list":
            ls = [c for c in h.node.dchildren() if c.kw == "leaf"]
            if not ls:
                return None
            k = self.rng.choice(ls).iname()
            if k in ("self", "raw"):
                return None
            return self.expect(["NonexistentInstance"],
                               lambda: h.inst.look_up(**{k: ("no", "such", "value")}),
                               "look up absent entry", h.path, k)
        if h.node.kw in ("anydata", "anyxml"):
            return None
        return self.expect(["InstanceValueError"], lambda: h.inst.look_up(x=1),
                           "look up in non-list", h.path)

    # -- time stamps -------------------------------------------------------
    def times_after(self, h, new, op):
        """C18: the edited node and its ancestors are newer, others are not."""
        if not isinstance(new, H):
            return
        ctx = self.ctx
        i = new.inst
        depth = 0
        while True:
            ctx.ev("timestamps of edited nodes and ancestors")
            if not ctx.check(i.timestamp >= self.t0, "stale-timestamp",
                             f"{op}: {'/'.join(map(str, i.path))} is {depth} levels above the edit and has "
                             f"timestamp {i.timestamp} before the edit at {self.t0}", **self.det()):
                break
            if not i.path:
                break
            i = i.up()
            depth += 1
        # values off the edited path keep object and time stamp
        old, top = h.inst.top().value, i.value
        self.untouched(old, top, (new if op != "delete" else h).path, op)

    def lineage(self, h, new, op):
        """C18: no ancestor of any edit that led to the handle gets older again."""
        edits = h.edits
        if op in self.EDIT:
            cut = new.path[:-1] if op.startswith("insert") else new.path
            edits = tuple((p[:len(cut)] if p[:len(cut)] == cut else p, t)
                          for p, t in edits) + ((new.path, self.t0),)
        new.edits = edits = edits[-6:]
        i = new.inst
        while edits:
            q = i.path
            t = max((t for p, t in edits if p[:len(q)] == q), default=None)
            if t is not None:
                self.ctx.ev("timestamps after further steps")
                if not self.ctx.check(i.timestamp >= t, "older-again",
                                      f"{'/'.join(map(str, q))} has timestamp {i.timestamp} after {op}, though "
                                      f"it or a node in it was edited at {t}", **self.det()):
                    return
            if not q:
                return
            i = i.up()

    def untouched(self, old, new, path, op):
        for s in path:
            if isinstance(old, dict) and isinstance(new, dict):
                for k in old:
                    if k != s and k in new:
                        self.same(old[k], new[k], k, op)
                if s not in old or s not in new:
                    return
            elif isinstance(old, list) and isinstance(new, list):
                for j in range(min(s, len(old), len(new))):
                    self.same(old[j], new[j], j, op)
                if not op.startswith("insert"):
                    for j in range(s + 1, min(len(old), len(new))):
                        self.same(old[j], new[j], j, op)
                if s >= len(old) or s >= len(new):
                    return
                if op.startswith("insert"):
                    return
            else:
                return
            old, new = old[s], new[s]

    def same(self, a, b, k, op):
        if hasattr(a, "timestamp"):
            self.ctx.ev("timestamps of other values")
            self.ctx.check(freeze(a) == freeze(b), "other-timestamp",
                           f"{op}: value {k} not containing the edit has another time stamp or content",
                           **self.det())


def unique_keys(node, v, entry=False):
    """All list entries below have their keys and these are unique."""
    if node.kw in ("leaf", "anydata", "anyxml", "leaf-list"):
        return True
    if isinstance(v, list):
        if node.keys:
            ks = [node.dchild(*k).iname() for k in node.keys]
            if any(k not in e for e in v for k in ks):
                return False
            if len({cr([e[k] for k in ks]) for e in v}) < len(v):
                return False
        return all(unique_keys(node, e, True) for e in v)
    for k, x in v.items():
        p, s, loc = k.partition(":")
        if not unique_keys(node.dchild(p if s else node.ns, loc if s else p), x):
            return False
    return True
