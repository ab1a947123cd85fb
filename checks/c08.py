"""C08: addresses identify exactly their node."""
import random
import re
from urllib.parse import quote
from vf import dgen, rdata, rtypes, util
from vf.core import Group
from vf.gen import Profile
from vf.rtypes import TypeErr, canon

PROPERTY = "C08"
RULE = ("every node of random documents (lists with up to three keys of all types, hostile strings as keys, keyless lists, leaf-lists with "
        "repeated values) is addressed by its path, JSON pointer, instance route, printed instance identifier, and by freshly "
        "rendered instance and resource identifiers (order of keys, quotes, white space, percent-encoding at will); "
        "changed addresses (other keys, names, positions, steps, broken syntax) are resolved by an independent resolver; one "
        "evaluation = one address resolved by goto and peek; non-trivial if it has a key, value or position or at least two steps")
ASSUMPTIONS = ["addresses that name only some keys of a list, or a value that occurs repeatedly, may denote any of the matching entries"]

HOSTILE = ["a'b", 'a"b', "a'b\"c", "a/b", "a,b", "a=b", "a%b", "%41", "a b", " a", "a ", "", "[x]", "]", "é", "日本", "a\\b", "a\nb",
           "a]b", "'", '"', "/", ",", "..", ".", "a&b", "a?b#c", "a+b", "~0", "~1/", "x'][k='y", "&amp;", "\t", "1", "01", "true",
           "'" * 3, "a;b", "*", "@x", "\u2028", "%2C", "%"]
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*")


class Bad(Exception):
    """Address not in the syntax."""


# -- the reference: steps are (m, ns, name) (k, {(ns, name): text}) (v, text) (i, n) --
def parse_iid(s):
    if s == "/":
        return []
    pos = 0
    out = []

    def name():
        nonlocal pos
        m = IDENT.match(s, pos)
        if not m:
            raise Bad
        pos = m.end()
        if s[pos:pos + 1] == ":":
            m2 = IDENT.match(s, pos + 1)
            if not m2:
                raise Bad
            pos = m2.end()
            return (m.group(), m2.group())
        return (None, m.group())

    def ws():
        nonlocal pos
        while s[pos:pos + 1] in (" ", "\t", "\n", "\r"):
            pos += 1

    def lit(c):
        nonlocal pos
        if s[pos:pos + 1] != c:
            raise Bad
        pos += 1

    def value():
        nonlocal pos
        ws()
        lit("=")
        ws()
        q = s[pos:pos + 1]
        if q not in ("'", '"'):
            raise Bad
        e = s.find(q, pos + 1)
        if e < 0:
            raise Bad
        v = s[pos + 1:e]
        pos = e + 1
        ws()
        lit("]")
        return v
    while True:
        lit("/")
        out.append(("m",) + name())
        if pos == len(s):
            return out
        if s[pos] == "[":
            pos += 1
            ws()
            m = re.compile("[0-9]+").match(s, pos)
            if m:
                pos = m.end()
                ws()
                lit("]")
                if int(m.group()) < 1:
                    raise Bad
                out.append(("i", int(m.group()) - 1))
            elif s[pos:pos + 1] == ".":
                pos += 1
                out.append(("v", value()))
            else:
                keys = {}
                while True:
                    n = name()
                    keys[n] = value()
                    if s[pos:pos + 1] != "[":
                        break
                    pos += 1
                    ws()
                out.append(("k", keys))
            if pos == len(s):
                return out


class Arr:
    """An array: all entries of a list or leaf-list."""

    def __init__(self, ri, node):
        self.ri, self.node = ri, node
        self.entries = ri.group(node)

    def path(self):
        return self.ri.path() + (self.node.iname(),)


def rounded(t, text):
    """May the text be a decimal number with too many fraction digits? (They are rounded.)"""
    return t.base in ("decimal64", "union", "leafref") and re.fullmatch(r"\s*[-+]?[0-9]+\.[0-9]+\s*", text)


def resolve(cur, steps, first=False):
    """(outcome, node): found | many | missing | schema | key | unknown (goes on after many)."""
    many = None
    for st in steps:
        if many:
            return ("unknown", None)
        if st[0] == "m":
            if isinstance(cur, Arr) or cur.node.kw not in ("root", "container", "list", "rpc", "input",
                                                           "output", "notification"):
                return ("schema", None)
            ns = st[1] or (None if cur.parent is None else cur.node.ns)
            c = cur.node.dchild(ns, st[2])
            if c is None:
                return ("schema", None)
            g = cur.group(c)
            if c.kw in ("list", "leaf-list"):
                if not g and c not in cur.present_arrays:
                    return ("missing", None)
                cur = Arr(cur, c)
            elif g:
                cur = g[0]
            else:
                return ("missing", None)
        elif st[0] == "i":
            if not isinstance(cur, Arr):
                return ("schema", None)
            if st[1] >= len(cur.entries):
                return ("missing", None)
            cur = cur.entries[st[1]]
        elif st[0] == "v":
            if not isinstance(cur, Arr) or cur.node.kw != "leaf-list":
                return ("schema", None)
            try:
                v = cur.node.type.from_text(st[1], cur.node.ns)[0]
            except TypeErr:
                if rounded(cur.node.type, st[1]):
                    return ("unknown", None)
                return ("key", None)
            es = [e for e in cur.entries if e.val[0] == v]
            if not es:
                return ("missing", None)
            if len(es) > 1 and not first:
                many = es
            cur = es[0]
        else:
            if not isinstance(cur, Arr) or cur.node.kw != "list":
                return ("schema", None)
            want = []
            kns = {k: cur.node.dchild(k[0] or cur.node.ns, k[1]) for k in st[1]}
            if any(kn is None or kn.kw != "leaf" for kn in kns.values()):
                return ("schema", None)
            for k, t in st[1].items():
                kn = kns[k]
                try:
                    want.append((kn, kn.type.from_text(t, kn.ns)[0]))
                except TypeErr:
                    if rounded(kn.type, t):
                        return ("unknown", None)
                    return ("key", None)
            es = [e for e in cur.entries if all(
                any(k.val[0] == v for k in e.group(kn)) for kn, v in want)]
            if not es:
                return ("missing", None)
            if len(es) > 1 and not first:
                many = es
            cur = es[0]
    return ("many", many) if many else ("found", cur)


# -- rendering ----------------------------------------------------------------
def steps_of(ri, how):
    """Steps to an instance; how(entry) gives the selector of an entry."""
    out = []
    while ri.parent is not None:
        if ri.key is not None:
            out.append(how(ri))
        n = ri.node
        out.append(("m", n.ns if ":" in n.iname() else None, n.name))
        ri = ri.parent
    return out[::-1]


def selector(e, rng):
    """Some selector of a list or leaf-list entry, or None if only its position will do."""
    if e.node.kw == "leaf-list":
        return ("v", lexical(e, rng))
    if not e.node.keys:
        return None
    ks = list(e.node.keys)
    if rng.random() < 0.5:
        rng.shuffle(ks)
    out = {}
    for ns, k in ks:
        g = e.group(e.node.dchild(ns, k))
        if not g:
            return None
        out[(None if ns == e.node.ns else ns, k)] = lexical(g[0], rng)
    return ("k", out)


def lexical(ri, rng):
    v, t = ri.val
    s = canon(v, t)
    if v[0] == "dec" and rng.random() < 0.2:
        s = s + ("0" if len(s.partition(".")[2]) < t.effective().fd else "")
    elif v[0] == "int" and v[1] > 0 and rng.random() < 0.1:
        s = "+" + s
    elif v[0] == "id" and v[1][0] == ri.node.ns and rng.random() < 0.3:
        s = v[1][1]
    return s


def iid(steps, rng):
    out = ""
    for st in steps:
        w = lambda: "" if rng.random() < 0.8 else rng.choice([" ", "  ", "\t", "\n", "\r\n"])

        def q(t):
            qs = [c for c in "'\"" if c not in t]
            if not qs:
                return None
            c = rng.choice(qs)
            return c + t + c
        if st[0] == "m":
            out += "/" + (f"{st[1]}:{st[2]}" if st[1] else st[2])
        elif st[0] == "i":
            out += f"[{w()}{st[1] + 1}{w()}]"
        elif st[0] == "v":
            if q(st[1]) is None:
                return None
            out += f"[{w()}.{w()}={w()}{q(st[1])}{w()}]"
        else:
            for (ns, n), t in st[1].items():
                if q(t) is None:
                    return None
                out += f"[{w()}{ns + ':' if ns else ''}{n}{w()}={w()}{q(t)}{w()}]"
    return out or "/"


def enc(t, rng):
    s = quote(t, safe=rng.choice(["", ":", ":@!$'()*;", ""]))
    if rng.random() < 0.2:       # needless and lower-case encodings
        s = "".join("%%%02x" % ord(c) if c.isalnum() and ord(c) < 128 and rng.random() < 0.4 and
                    not (i and s[i - 1] == "%" or i > 1 and s[i - 2] == "%") else c for i, c in enumerate(s))
        s = re.sub("%[0-9A-F]{2}", lambda m: m.group().lower() if rng.random() < 0.5 else m.group(), s)
    return s


def rid(steps, rng, root):
    """Resource identifier (None if there is none)."""
    out = ""
    node = root
    for st in steps:
        if st[0] == "m":
            node = node.dchild(st[1] or node.ns, st[2])
            out += "/" + (f"{st[1]}:{st[2]}" if st[1] else st[2])
        elif st[0] == "i":
            return None
        elif st[0] == "v":
            if node.kw == "list":       # would be written like a key
                return None
            out += "=" + enc(st[1], rng)
        else:
            ks = {(ns or node.ns, n): t for (ns, n), t in st[1].items()}
            if set(ks) != set(node.keys):
                return None
            out += "=" + ",".join(enc(ks[k], rng) for k in node.keys)
    return out or "/"


# -- observing the library --------------------------------------------------------
class Obs:
    def __init__(self, ctx, rng, m, dm, raw, ri, root, inst, sub):
        self.ctx, self.rng, self.m, self.dm = ctx, rng, m, dm
        self.ri, self.root, self.inst, self.sub = ri, root, inst, sub
        self.det = {"document": raw, "subschema": sub, "model": util.model_text(m.lib)}

    def bad(self, mech, msg):
        self.ctx.fail(mech, msg, **self.det)

    def outcome(self, base, route):
        """((path, value) | exception name) by goto, then by peek."""
        from yangson.exceptions import (BadSchemaNodeType, InstanceException, InvalidKeyValue, NonDataNode,
                                        NonexistentInstance, InstanceValueError, NonexistentSchemaNode)
        ok = (NonexistentInstance, InstanceValueError, NonexistentSchemaNode, InvalidKeyValue, NonDataNode,
              BadSchemaNodeType)
        try:
            n = base.goto(route)
            g = ("found", n)
        except ok as e:
            g = (type(e).__name__, None)
        try:
            v = base.peek(route)
            p = ("found", v) if v is not None else ("None", None)
        except ok as e:
            p = (type(e).__name__, None)
        return g, p

    def check(self, mech, text, route, want, base=None):
        """want: result of the reference resolver."""
        if want[0] == "unknown":
            return
        base = base or self.inst
        g, p = self.outcome(base, route)
        self.ctx.ev("resolved " + want[0])
        self.ctx.case([mech, text, self.m.text()], len(route) > 1)
        gv = g[1].value if g[1] is not None else None
        if want[0] in ("found", "many"):
            ps = [want[1].path()] if want[0] == "found" else [e.path() for e in want[1]]
            if g[0] != "found" or util.route_of(g[1]) not in ps:
                self.bad(mech + "-goto", f"{text}: should be {ps}, goto gives "
                         f"{g[0] if g[1] is None else util.route_of(g[1])}")
            elif p[0] != "found" or p[1] is not gv and p[1] != gv:
                self.bad(mech + "-peek", f"{text}: goto gives {gv!r}, peek gives {p}")
            return
        exp = {"missing": ("NonexistentInstance",), "key": ("InvalidKeyValue", "NonexistentInstance"),
               "schema": ("NonexistentInstance", "InstanceValueError", "NonexistentSchemaNode",
                          "BadSchemaNodeType", "NonDataNode", "InvalidKeyValue")}[want[0]]
        if g[0] not in exp:
            self.bad(f"{mech}-{want[0]}", f"{text}: goto should raise {exp}, gives {g[0]} "
                     f"{util.route_of(g[1]) if g[1] is not None else ''}")
        if not (p[0] == "None" or p[0] == g[0] and p[0] != "found" and want[0] != "missing"):
            self.bad(f"{mech}-{want[0]}-peek", f"{text}: peek should be None, gives {p}")

    def all_nodes(self):
        """(RI or Arr, instance node) for all nodes."""
        def walk(ri, inst):
            yield ri, inst
            if ri.val is not None or ri.node.kw in ("anydata", "anyxml"):
                return
            for name in inst:
                k = inst[name]
                kids = [c for c in ri.kids if c.node.iname() == name]
                arrs = [c for c in ri.present_arrays if c.iname() == name]
                if not kids and not arrs:
                    self.bad("member", f"unexpected member {name} at {inst.path}")
                elif kids and kids[0].key is None:
                    yield from walk(kids[0], k)
                else:
                    a = Arr(ri, kids[0].node if kids else arrs[0])
                    yield a, k
                    es = list(k)
                    if len(es) != len(a.entries):
                        self.bad("entries", f"{len(es)} entries at {k.path}, should be {len(a.entries)}")
                    for e, x in zip(a.entries, es):
                        yield from walk(e, x)
        return walk(self.ri, self.inst)

    def nodes(self):
        rng, dm = self.rng, self.dm
        self.pool = []
        for ri, n in list(self.all_nodes()):
            path = ri.path()
            self.pool.append((ri, n))
            self.ctx.ev("nodes")
            if util.route_of(n) != path:
                self.bad("path", f"path of {path} is {n.path}")
                continue
            jp = n.json_pointer()
            if jp != "/" + "/".join(map(str, path)):
                self.bad("json-pointer", f"JSON pointer of {path} is {jp}")
            x = self.inst
            for s in util.decode_path(jp) if path else ():
                x = x[int(s) if isinstance(x.value, list) else s]
            if util.route_of(x) != path or x.value != n.value:
                self.bad("json-pointer", f"JSON pointer {jp} leads to {x.path}")
            r = n.instance_route()
            self.check("route", path, r, ("found", ri))
            s = str(r)
            try:
                st = parse_iid(s)
            except Bad:
                self.bad("printed", f"{path}: {s} is no instance identifier")
                continue
            want = resolve(self.ri, st, True)       # the first of equal entries
            if want[0] != "found" or want[1].path() != path:
                self.bad("printed", f"{path}: printed instance identifier {s} denotes "
                         f"{want[0]} {want[1].path() if want[0] == 'found' else ''}")
                continue
            self.ctx.ev("printed identifiers")
            p = dm.parse_instance_id(s)
            self.check("printed", s, p, ("found", ri))
            if p != r or hash(p) != hash(r):
                self.bad("route-equality", f"{s} is read as a different route")
            if len(r) > 1 and rng.random() < 0.3:
                from yangson.instroute import InstanceRoute
                k = rng.randrange(1, len(r))
                self.check("relative", (s, k), InstanceRoute(r[k:]), ("found", ri),
                           self.inst.goto(InstanceRoute(r[:k])))
            self.fresh(ri, path)

    def fresh(self, ri, path):
        """Newly rendered addresses of a node."""
        rng, dm = self.rng, self.dm
        a = ri if isinstance(ri, Arr) else None
        base = a.ri if a else ri
        tail = [("m", a.node.ns if ":" in a.node.iname() else None, a.node.name)] if a else []
        for _ in range(2):
            pos = rng.choice([0, 0, 0.3, 1])
            st = steps_of(base, lambda e: (None if rng.random() < pos else selector(e, rng)) or
                          ("i", e.key)) + tail
            want = resolve(self.ri, st)
            s = iid(st, rng)
            if s is not None:
                self.ctx.ev("instance identifiers")
                self.check("instance-id", s, dm.parse_instance_id(s), want)
            if self.sub is None:
                s = rid(st, rng, self.root)
                if s is not None:
                    self.ctx.ev("resource identifiers")
                    self.check("resource-id", s, dm.parse_resource_id(s), want)

    # -- other addresses ------------------------------------------------------------
    def others(self, n):
        from yangson.exceptions import NonexistentSchemaNode, ParserException
        rng, dm, lib = self.rng, self.dm, self.m.lib
        names = [(c.ns, c.name) for c in self.root.walk() if c.parent is not None]
        for _ in range(n):
            ri, _n = rng.choice(self.pool)
            a = ri if isinstance(ri, Arr) else None
            st = steps_of(a.ri if a else ri, lambda e: (None if rng.random() < 0.2 else selector(e, rng)) or
                          ("i", e.key))
            if a:
                st.append(("m", a.node.ns if ":" in a.node.iname() else None, a.node.name))
            for _ in range(rng.choice([1, 1, 2])):
                st = self.change(st, names)
            if not st or st[0][0] != "m":
                continue
            if any(st[i][0] != "m" and st[i + 1][0] != "m" for i in range(len(st) - 1)):
                continue
            want = resolve(self.ri, st)
            s = iid(st, rng)
            if s is not None:
                self.ctx.ev("other instance identifiers")
                self.check("other-iid", s, dm.parse_instance_id(s), want)
                self.broken(s)
            if self.sub is None:
                try:
                    s = rid(st, rng, self.root)
                except AttributeError:
                    s = None
                if s is not None:
                    try:
                        r = dm.parse_resource_id(s)
                    except (ParserException, NonexistentSchemaNode) as e:
                        if want[0] in ("found", "missing") and legal_rid(st, self.root):
                            self.bad("resource-id-rejected", f"{s}: {e!r}, should be {want[0]}")
                        continue
                    self.ctx.ev("other resource identifiers")
                    self.check("other-rid", s, r, want)

    def change(self, st, names):
        rng = self.rng
        st = list(st)
        if not names:
            return st
        i = rng.randrange(len(st)) if st else 0
        x = rng.random()
        if not st or x < 0.1:
            ns, n = rng.choice(names)
            st.insert(i, ("m", rng.choice([ns, None]), n))
        elif x < 0.2:
            ns, n = rng.choice(names)
            st.append(("m", rng.choice([ns, None]), n))
        elif x < 0.3:
            st.pop(i)
        elif x < 0.4:
            st.append(rng.choice([("i", rng.randint(0, 5)), ("v", rng.choice(HOSTILE)),
                                  ("k", {(None, rng.choice(names)[1]): rng.choice(HOSTILE)})]))
        else:
            s = st[i]
            if s[0] == "m":
                ns, n = rng.choice(names)
                st[i] = rng.choice([("m", ns, s[2]), ("m", s[1], n), ("m", ns, n),
                                    ("m", None, s[2])])
            elif s[0] == "i":
                st[i] = ("i", rng.choice([s[1] + 1, s[1] - 1 if s[1] else 7, 10 ** 20]))
            elif s[0] == "v":
                st[i] = ("v", self.other(s[1]))
            else:
                d = dict(s[1])
                k = rng.choice(sorted(d, key=str))
                y = rng.random()
                if y < 0.7:
                    d[k] = self.other(d[k])
                elif y < 0.8 and len(d) > 1:
                    del d[k]
                else:
                    d[(None, rng.choice(names)[1])] = "a"
                st[i] = ("k", d)
        return st

    def other(self, t):
        rng = self.rng
        x = rng.random()
        if x < 0.4:       # a value of the same kind from elsewhere in the document
            vs = [canon(*r.val) for r, _ in self.pool if not isinstance(r, Arr) and r.val is not None]
            if vs:
                return rng.choice(vs)
        if x < 0.6:
            return rng.choice(HOSTILE)
        return rng.choice([t + "x", t[:-1], t.upper(), t + " ", "1", "-1", "true", "1.0", t + "0"])

    def broken(self, s):
        """Texts that may not be instance identifiers."""
        from yangson.exceptions import ParserException
        rng = self.rng
        if rng.random() > 0.5:
            return
        i = rng.randrange(len(s) + 1)
        c = rng.choice("/[]='\":. \ta1é\u0662\u00a0\x0c")
        ps = [m.end() for m in re.finditer(r"\[[0-9]+", s)]
        if ps and rng.random() < 0.3:     # among digits
            i = rng.choice(ps)
        t = rng.choice([s[:i] + c + s[i:], s[:i] + s[i + 1:], s[:i], s[:i] + c + s[i + 1:], s + s[:i]])
        try:
            st = parse_iid(t)
        except Bad:
            st = None
        if st is not None and (re.search(r"\[\s*0", t) or any(
                re.findall(r"\[\s*(?:[\w.-]+:)?([\w.-]+)", p.group()) for p in ()) or dup_keys(t)):
            return
        try:
            r = self.dm.parse_instance_id(t)
        except ParserException:
            r = None
        self.ctx.ev("broken identifiers" if st is None else "changed identifiers")
        self.ctx.case(["broken", t], True)
        if (r is None) != (st is None):
            self.bad("iid-syntax", f"{t!r} is {'no' if st is None else 'an'} instance identifier, "
                     f"but was {'rejected' if r is None else 'read'}")
        elif r is not None:
            self.check("changed-iid", t, r, resolve(self.ri, st))


def dup_keys(t):
    """Is the same key named twice?"""
    ks = re.findall(r"\[\s*([A-Za-z_][\w.:-]*)\s*=", t)
    return len(ks) != len({k.split(":")[-1] for k in ks})


def legal_rid(st, root):
    """Do the steps follow the schema, with all keys in their places?"""
    node = root
    for i, s in enumerate(st):
        if s[0] == "m":
            node = node.dchild(s[1] or node.ns, s[2]) if node.kw in ("root", "container", "list") else None
            if node is None:
                return False
            if node.kw in ("list", "leaf-list") and i + 1 < len(st) and st[i + 1][0] == "m":
                return False
        elif s[0] == "v" and node.kw != "leaf-list" or s[0] == "k" and node.kw != "list":
            return False
    return True


def case(ctx, rng, prof=None):
    prof = prof or Profile(when=0, must=0, augment=3, rpc=0.3, unique=0, default=0.1, ops=0.1,
                           state=0.2, typedefs=0.2, unions=0.08, anydata=0.04, deviations=rng.choice([0, 0, 3]))
    m, dm = util.model(ctx, rng, prof)
    for _ in range(3):
        dg = dgen.DG(m.lib, rng, maxlist=rng.choice([2, 4, 6]), density=rng.choice([0.5, 0.9]), minlist=1,
                     strs=rng.choice([None, HOSTILE, HOSTILE]))
        one(ctx, rng, m, dm, m.lib.root, dg, None)
    for op in m.lib.root.children:
        if op.kw in ("rpc", "notification"):
            dg = dgen.DG(m.lib, rng, minlist=1, strs=HOSTILE)
            one(ctx, rng, m, dm, op, dg, f"{op.ns}:{op.name}")


def one(ctx, rng, m, dm, root, dg, sub):
    raw = {}
    if root.kw == "rpc":
        for io in root.children:
            if io.kw in ("input", "output"):
                raw[f"{root.ns}:{io.kw}"] = dg.obj(io)
    else:
        raw = dg.obj(root)
    while True:
        try:
            ri = rdata.decode(root, raw, m.lib)
            rdata.encode(ri)
            break
        except rdata.RawErr as e:
            if not dg.drop(raw, e.path):
                return
    inst = dm.from_raw(raw) if sub is None else dm.from_raw(raw, sub)
    o = Obs(ctx, rng, m, dm, raw, ri, root, inst, sub)
    if sub:
        if root.kw == "notification":
            return
        o.pool = []
        ops(o)
        return
    o.nodes()
    o.others(60)
    actions(o)


def ops(o):
    """Routes inside the data of operations lead back to their nodes."""
    def walk(n):
        yield n
        if isinstance(n.value, dict) and n.is_internal():
            for k in n:
                yield from walk(n[k])
        elif isinstance(n.value, list):
            for e in n:
                yield from walk(e)
    for n in list(walk(o.inst)):
        o.ctx.ev("nodes in operations")
        r = n.instance_route()
        p = o.dm.parse_instance_id(str(r))
        for x in (r, p):
            g = o.inst.goto(x)
            if g.path != n.path or g.value != n.value or o.inst.peek(x) != n.value:
                o.bad("operation-route", f"{r} leads to {g.path} instead of {n.path}")


def actions(o):
    """Resource identifiers of actions and rpcs address no data."""
    from yangson.exceptions import NonDataNode
    for ri, n in o.pool:
        if isinstance(ri, Arr) or ri.node.kw not in ("container", "list", "root"):
            continue
        for c in ri.node.children:
            if c.kw not in ("action", "rpc"):
                continue
            if ri.node.kw == "root":
                base = ""
            else:
                st = steps_of(ri, lambda e: selector(e, o.rng) or ("i", e.key))
                base = rid(st, o.rng, o.root)
                if base is None or resolve(o.ri, st)[0] != "found":
                    continue
            s = f"{base}/{c.ns + ':' if c.ns != ri.node.ns else ''}{c.name}"
            r = o.dm.parse_resource_id(s)
            g, p = o.outcome(o.inst, r)
            o.ctx.ev("operation resources")
            o.ctx.case(["op", s], True)
            if g[0] != "NonDataNode" or p[0] != "None":
                o.bad("operation-resource", f"{s}: goto gives {g}, peek gives {p}")


def keys(ctx, rng):
    """Dense lists with several string keys."""
    case(ctx, rng, Profile(depth=2, width=4, when=0, must=0, augment=2, unique=0, default=0, state=0.2, keyless=0.2,
                           choice=0.05, uses=0.05, iffeature=0, typedefs=0.1, maxels=False))


GROUPS = [Group("rich", case, 140, 3000), Group("keys", keys, 140, 3000)]
REQUIRE = {"nodes": 10000, "printed identifiers": 10000, "instance identifiers": 15000,
           "resource identifiers": 10000, "other instance identifiers": 10000, "resolved missing": 1500,
           "resolved key": 300, "resolved schema": 3000, "broken identifiers": 3000, "changed identifiers": 1000,
           "nodes in operations": 300, "operation resources": 50}
