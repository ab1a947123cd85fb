"""Catalogue of operations on a data model and its instances, with comparable results (C11, C14, C21)."""
import importlib
import json
import xml.etree.ElementTree as ET
from urllib.parse import quote

from . import dgen, rxpath, xgen
from .core import CaseTimeout, safe_str
from .gen import Profile, gen_model
from .hist import freeze, setp

c07 = importlib.import_module("checks.c07")


def plain(v):
    """Deep picture of a cooked value, without time stamps and order of members."""
    if isinstance(v, dict):
        return ("O", tuple(sorted(((k, plain(x)) for k, x in v.items()), key=lambda t: t[0])))
    if isinstance(v, list):
        return ("A", tuple(plain(x) for x in v))
    return (type(v).__name__, repr(v))


def xmlpic(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, tuple(xmlpic(x) for x in e))


def snpic(s):
    """What a schema node says about itself."""
    if s is None:
        return None
    out = [type(s).__name__, s.qual_name, s.iname(), s.config, s.mandatory, str(s.status), str(s.content_type()), s.data_path()]
    t = getattr(s, "type", None)
    if t is not None:
        out.append((str(t), t.yang_type(), plain(getattr(t, "default", None))))
    for a in ("default", "units", "user_ordered", "min_elements", "max_elements", "keys", "presence", "description", "reference"):
        if hasattr(s, a):
            out.append((a, plain(getattr(s, a)) if a == "default" else str(getattr(s, a))))
    if hasattr(s, "children"):
        out.append(tuple((c.name, type(c).__name__) for c in s.children))
        out.append(tuple(sorted(c.iname() for c in s.data_children())))
    p = s.data_parent() if s.parent is not None else None
    out.append(p.data_path() if p is not None and p.parent is not None else None)
    return tuple(out)


def rid_of(n):
    """Resource identifier of an instance node."""
    from yangson.schemanode import ListNode, LeafListNode
    parts = []
    chain = []
    while True:
        chain.append(n)
        if n.parinst is None:
            break
        n = n.parinst
    chain.reverse()
    for x in chain[1:]:
        if type(x).__name__ == "ArrayEntry" and isinstance(x.schema_node, (ListNode, LeafListNode)):
            if isinstance(x.schema_node, ListNode):
                ks = [quote(str(x.value.get(k[0] if k[1] == x.schema_node.ns else k[1] + ":" + k[0], "")), safe="") for k in x.schema_node.keys]
            else:
                ks = [quote(str(x.value).encode("utf-8", "replace"), safe="")]
            if ks:
                parts[-1] += "=" + ",".join(ks)
        else:
            parts.append(x.name)
    return "/" + "/".join(parts)


class Env:
    """A data model and instances made from it, with the nodes the operations start from."""

    def __init__(self, scene, dm, roots=None, nodes=None):
        self.dm = dm
        self.docs, self.places = scene.docs, scene.places
        self.roots = roots or [dm.from_raw(d) for d in scene.docs]
        self.nodes = nodes or [at(self.roots[i], p) for i, p in scene.places]

    def picture(self):
        """Without calling anything of the library that might leave something behind."""
        return [freeze(r.value) for r in self.roots] + [(freeze(n.value), n.name, n.timestamp) for n in self.nodes]

    def astray(self):
        """The first node that isn't where it was made."""
        for n, (_, p) in zip(self.nodes, self.places):
            if tuple(n.path) != p:
                return (p, tuple(n.path))


def at(inst, path):
    for k in path:
        inst = inst[k]
    return inst


def scalars(v, out):
    if isinstance(v, dict):
        for x in v.values():
            scalars(x, out)
    elif isinstance(v, list):
        for x in v:
            scalars(x, out)
    elif v is not None:
        out.append(v)


class Scene:
    """Model texts, documents and operations; nothing of it is an object of the library."""

    def __init__(self, ctx, rng, prof=None, nops=140):
        self.st = st = c07.Setting.__new__(c07.Setting)
        self.m = m = gen_model(rng, prof or Profile(
            depth=rng.choice([2, 3]), width=rng.choice([3, 4]), default=0.45, leafref=0.12, when=0.15, must=0.15, typedefs=0.4, unions=0.15,
            ops=0.3, rpc=0.4, unique=0.15, augment=2, anydata=0))
        self.lib = st.lib = m.lib
        self.dir = ctx.tmpdir()
        m.write(self.dir, rng)
        self.json = json.dumps(m.yang_library())
        self.docs, self.ops, self.places, self.stable = [], [], [], set()
        dm = st.dm = self.model()
        if not st.document(ctx, rng):
            return
        dg = dgen.DG(self.lib, rng, density=0.7)
        self.docs = [st.raw, dg.obj(self.lib.root)]
        for _ in range(2):
            try:
                d = dgen.mutate(json.loads(json.dumps(st.raw)), self.lib.root, rng, dg)
                d = d[0] if isinstance(d, tuple) else d
                dm.from_raw(d)
                self.docs.append(d)
                break
            except CaseTimeout:
                raise
            except Exception:
                pass
        # a document with entries that have the same keys, or the same key values in another arrangement
        d = json.loads(json.dumps(st.raw))
        ls = [(x[0][x[1]], x[2]) for x in dgen.slots(d, self.lib.root, []) if x[2].kw == "list" and x[2].keys and x[0][x[1]]]
        if ls:
            v, node = max(ls, key=lambda x: (len(x[1].keys), rng.random()))
            e = json.loads(json.dumps(rng.choice(v)))
            ks = [k for ns, k in node.keys if k in e]
            x = [e[k] for k in ks]
            if rng.random() < 0.5:
                rng.shuffle(x)
            e.update(zip(ks, x))
            v.insert(rng.randint(0, len(v)), e)
            try:
                dm.from_raw(d)
                self.docs.append(d)
            except CaseTimeout:
                raise
            except Exception:
                pass
        # documents with different bad values of the same leaf
        self.hot, hots = [], []
        ls = [x for x in dgen.slots(st.raw, self.lib.root, []) if x[2].kw == "leaf"]
        rng.shuffle(ls)
        for par, key, node, path, _ in ls[:8]:
            got = []
            for _ in range(8):
                b = dgen.bad_value(node.type, rng)
                d = setp(st.raw, path, b)
                try:
                    i = dm.from_raw(d)
                    t = at(i, path)
                    if t.value in t.schema_node.type or b in [x[0] for x in got]:
                        continue
                except CaseTimeout:
                    raise
                except Exception:
                    continue
                got.append((b, d))
            if len(got) > 1 and len(hots) < 2:
                hots.append((node, path, [b for b, _ in got[:3]]))
                for _, d in got[:3]:
                    self.hot.append(len(self.docs))
                    self.docs.append(d)
        for i, d in enumerate(self.docs):
            inst = dm.from_raw(d)
            ps = []

            def walk(x, p):
                ps.append(p)
                v = x.value
                if x.schema_node.__class__.__name__ in ("AnydataNode", "AnyxmlNode", "AnyContentNode"):
                    return
                for k in ([k for k in v if not k.startswith("@")] if isinstance(v, dict) else range(len(v)) if isinstance(v, list) else ()):
                    walk(x[k], p + (k,))
            walk(inst, ())
            rng.shuffle(ps)
            self.places += [(i, ())] + [(i, p) for p in ps[:14 if i not in self.hot else 0] if p]
            self.places += [(i, path) for _, path, _ in hots if i in self.hot]
        self.make(rng, dm, dg, nops)
        self.hotops = []
        for i, (di, p) in enumerate(self.places):
            if di in self.hot:
                self.hotops.append(("validate", i, "all", "all"))
        for node, path, bs in hots:
            for b in bs:
                self.hotops.append(("type", self.spath(node), b))
        first = len(self.ops)
        self.ops += self.hotops
        self.hotops = list(range(first, len(self.ops)))

    def model(self, js=None):
        from yangson import DataModel
        return DataModel(js or self.json, (self.dir,))

    @staticmethod
    def names(ns):
        out, prev = "", None
        for x in ns:
            out += f"/{x.name}" if x.ns == prev else f"/{x.ns}:{x.name}"
            prev = x.ns
        return out or "/"

    def spath(self, n):
        out = []
        while n.parent is not None:
            out.append(n)
            n = n.parent
        return self.names(reversed(out))

    def make(self, rng, dm, dg, nops):
        env = Env(self, dm)
        lib = self.lib
        nn = len(env.nodes)
        add = self.ops.append
        allsn = [n for n in lib.root.walk() if n.parent is not None]

        names, spath = self.names, self.spath
        vals = []
        for d in self.docs:
            scalars(d, vals)
        vals = vals or [1]
        idl = sorted(lib.identities)
        for k in ("digest", "tree", "msid", "states"):
            add((k,))
        for _ in range(nops):
            k = rng.choice(KINDS)
            i = rng.randrange(nn)
            n = env.nodes[i]
            sn = n.schema_node
            if k == "schema-node" or k == "data-node":
                s = rng.choice(allsn)
                add((k, spath(s) if k[0] == "s" else names(datapath(s))))
            elif k == "tree":
                add((k, rng.random() < 0.5))
            elif k == "identities":
                if idl:
                    add((k, [tuple(reversed(rng.choice(idl))) for _ in range(rng.randrange(1, 3))]))
            elif k == "from-raw":
                d = rng.choice(self.docs) if rng.random() < 0.5 else dgen.mutate(json.loads(json.dumps(self.docs[0])), lib.root, rng, dg)
                add((k, d[0] if isinstance(d, tuple) else d))
            elif k == "iid":
                t = str(n.instance_route())
                add((k, i, t if rng.random() < 0.8 else t + rng.choice(["/x", "[", "[1]"]), self.places[i][0]))
            elif k == "rid":
                t = rid_of(n)
                add((k, i, t if rng.random() < 0.8 else t + rng.choice(["/x", "=1", ":"]), self.places[i][0]))
            elif k == "xpath":
                toks, tm, ns, xenv, path = c07.gen(self.st, rng, rng.choice([1, 2, 2, 3]))
                if len(toks) < 100:
                    t = xgen.glue(toks)
                    di, pl = self.places[i]
                    if di == 0 and pl in self.st.trees[0][1]:
                        ast = rxpath.P(t).parse()
                        xenv.visits = 0
                        w = c07.ref_eval(self.st, ast, xenv, pl)
                        if w[0] != "skip" and not c07.ordered(self.st, ast, xenv, pl, w):
                            self.stable.add(len(self.ops))
                    add((k, i, t, tm.name, tm.rev or "", ns))
            elif k in ("validate",):
                add((k, i if rng.random() < 0.5 else rng.choice([j for j, p in enumerate(self.places) if not p[1]]), rng.choice(["all", "all", "syntax", "semantics"]), rng.choice(["all", "config", "nonconfig"])))
            elif k == "add-defaults":
                add((k, i if rng.random() < 0.5 else rng.choice([j for j, p in enumerate(self.places) if not p[1]]), rng.choice(["all", "config", "nonconfig"]), rng.random() < 0.5, rng.random() < 0.4))
            elif k in ("put", "delete", "insert", "update", "merge", "look-up"):
                v = n.value
                x = json.loads(json.dumps(rng.choice(self.docs)))
                if k == "put" and isinstance(v, dict):
                    cs = [c.iname() for c in sn.data_children()] if hasattr(sn, "data_children") else []
                    if cs:
                        add((k, i, rng.choice(cs), rng.choice(vals + [{}, []])))
                elif k == "delete" and isinstance(v, (dict, list)) and v:
                    add((k, i, rng.choice(list(v)) if isinstance(v, dict) else rng.randrange(len(v))))
                elif k == "insert" and type(n).__name__ == "ArrayEntry":
                    add((k, i, rng.random() < 0.5, json.loads(json.dumps(n.raw_value()))))
                elif k == "update":
                    j = rng.randrange(nn)
                    add((k, i, env.nodes[j].raw_value() if rng.random() < 0.3 else n.raw_value()))
                elif k == "merge":
                    j = rng.choice([j for j in range(nn) if env.nodes[j].schema_node is sn])
                    add((k, i, env.nodes[j].raw_value()))
                elif k == "look-up" and isinstance(v, list) and v and isinstance(v[0], dict):
                    e = rng.choice(list(v))
                    q = rng.choice(list(e) or ["x"])
                    add((k, i, q, rng.random() < 0.3))
            elif k == "type":
                ls = [s for s in allsn if s.kw in ("leaf", "leaf-list")]
                if ls:
                    s = rng.choice(ls)
                    w = rng.choice(vals)
                    add((k, spath(s), w if rng.random() < 0.6 else rng.choice(["", "x", -1, 1000, True, "1.25", [None], "b0 b1", "zz"])))
            elif k == "operation":
                rs = [x for x in allsn if x.kw == "rpc"]
                if rs:
                    x = rng.choice(rs)
                    io = rng.choice([c for c in x.children if c.name in ("input", "output")] or [None])
                    if io is not None:
                        add((k, f"{x.ns}:{x.name}", f"{x.ns}:{io.name}", dg.obj(io), rng.choice(["all", "config", "nonconfig"])))
            else:
                add((k, i))

    # -- execution

    def run(self, env, op):
        """Comparable outcome of an operation."""
        from yangson.exceptions import ValidationError, YangsonException
        try:
            return ("ok", getattr(self, "o_" + op[0].replace("-", "_"))(env, *op[1:]))
        except CaseTimeout:
            raise
        except ValidationError as e:
            return ("failed", type(e).__name__, e.tag, str(e.message), tuple(map(str, e.instance.path)))
        except YangsonException as e:
            return ("failed", type(e).__name__, safe_str(e))
        except Exception as e:
            return ("crashed", type(e).__name__, safe_str(e))

    def o_digest(self, env):
        return env.dm.schema_digest()

    def o_tree(self, env, nt=False):
        return env.dm.ascii_tree(no_types=nt)

    def o_msid(self, env):
        return env.dm.module_set_id()

    def o_states(self, env):
        return sorted(env.dm.schema.state_roots())

    def o_schema_node(self, env, p):
        return snpic(env.dm.get_schema_node(p))

    def o_data_node(self, env, p):
        return snpic(env.dm.get_data_node(p))

    def o_identities(self, env, ids):
        sd = env.dm.schema_data
        return (sorted(sd.derived_from_all(ids)), sorted(sd.derived_from(ids[0])), sd.is_derived_from(ids[0], ids[-1]))

    def o_from_raw(self, env, d):
        return plain(env.dm.from_raw(d).value)

    def o_xml(self, env, i):
        n = env.nodes[i]
        while n.parinst is not None:
            n = n.parinst
        x = n.to_xml()
        from yangson.xmlparser import XMLParser
        return (xmlpic(x), plain(env.dm.from_xml(XMLParser(ET.tostring(x, encoding="unicode")).root).value))

    def o_iid(self, env, i, t, ri):
        r = env.dm.parse_instance_id(t)
        return (str(r), plain(env.roots[ri].peek(r)), plain(env.roots[ri].goto(r).value))

    def o_rid(self, env, i, t, ri):
        r = env.dm.parse_resource_id(t)
        return (str(r), plain(env.roots[ri].peek(r)), plain(env.roots[ri].goto(r).value))

    def o_xpath(self, env, i, t, name, rev, ns):
        from yangson.schemadata import SchemaContext
        from yangson.xpathparser import XPathParser
        e = XPathParser(t, SchemaContext(env.dm.schema_data, ns, (name, rev))).parse()
        r = e.evaluate(env.nodes[i])
        if isinstance(r, list):
            # defaults are added on the way, so one of the same structured node may have them and another not
            r = sorted((tuple(map(str, n.path)), type(n.value).__name__ if isinstance(n.value, (dict, list)) else plain(n.value)) for n in r)
        return (str(e), repr(r))

    def o_validate(self, env, i, sc, ct):
        from yangson.enumerations import ContentType, ValidationScope
        return env.nodes[i].validate(ValidationScope[sc], ContentType[ct])

    def o_add_defaults(self, env, i, ct, tag, use=False):
        from yangson.enumerations import ContentType
        r = env.nodes[i].add_defaults(ContentType[ct], tag)
        if use:
            r.validate(ctype=ContentType[ct])
        out = [plain(r.value), repr(sortd(r.raw_value()))]
        if use and isinstance(r.value, dict):
            for k in sorted(r.value):
                if k[0] != "@" and isinstance(r.value[k], list) and len(r.value[k]):
                    m = r[k]
                    e = m[0].insert_after(m.value[-1]).insert_before(m.value[0])
                    out.append(plain(e.up().delete_item(0).top().value))
                elif k[0] != "@" and isinstance(r.value[k], dict):
                    for q in sorted(r.value[k])[:2]:
                        out.append(plain(r[k].delete_item(q).top().value))
        return out

    def o_operation(self, env, rpc, io, raw, ct):
        from yangson.enumerations import ContentType, ValidationScope
        r = env.dm.from_raw({io: raw}, rpc)
        out = [plain(r.value), repr(sortd(r.raw_value())), plain(r.add_defaults(ContentType[ct]).value)]
        r.validate(ValidationScope.all, ContentType[ct])
        return out

    def o_raw_value(self, env, i):
        return repr(sortd(env.nodes[i].raw_value()))

    def o_str(self, env, i):
        n = env.nodes[i]
        return (str(n), str(n.instance_route()), n.json_pointer(), tuple(map(str, n.path)), str(getattr(n, "qual_name", "")), str(n.namespace))

    def o_hash(self, env, i):
        v = env.nodes[i].value
        return [env.nodes[i].value == n.value for n in env.nodes] + [hash(v) == hash(n.value) for n in env.nodes if v == n.value] + [
            (r.value == f.value, hash(r.value) == hash(f.value)) for r, f in zip(env.roots, map(env.dm.from_raw, env.docs))]

    def o_walk(self, env, i):
        n = env.nodes[i]
        out = []
        for q in ("up", "top", "next", "previous"):
            if hasattr(n, q):
                try:
                    x = getattr(n, q)()
                    out.append((q, plain(x.value), tuple(map(str, x.path))))
                except Exception as e:
                    out.append((q, type(e).__name__))
        if isinstance(n.value, dict) and hasattr(n.schema_node, "data_children") or isinstance(n.value, list):
            out.append(sorted((str(x.name), plain(x.value)) for x in (n[k] for k in (
                [k for k in n.value if not k.startswith("@")] if isinstance(n.value, dict) else range(len(n.value))))))
        if hasattr(n, "sibling"):
            for s in sorted(k for k in n.siblings if not k.startswith("@")):
                out.append(plain(n.sibling(s).value))
        return out

    def o_put(self, env, i, nm, raw):
        r = env.nodes[i].put_member(nm, raw, raw=True)
        return (plain(r.value), plain(r.up().value), plain(r.top().value))

    def o_delete(self, env, i, k):
        r = env.nodes[i].delete_item(k)
        return (plain(r.value), plain(r.top().value))

    def o_insert(self, env, i, before, raw):
        n = env.nodes[i]
        r = (n.insert_before if before else n.insert_after)(raw, raw=True)
        return (plain(r.value), plain(r.up().value), plain(r.top().value))

    def o_update(self, env, i, raw):
        r = env.nodes[i].update(raw, raw=True)
        return (plain(r.value), plain(r.top().value))

    def o_merge(self, env, i, raw):
        r = env.nodes[i].merge(raw, raw=True)
        return (plain(r.value), plain(r.top().value))

    def o_look_up(self, env, i, q, raw):
        n = env.nodes[i]
        v = n.value[-1][q]
        r = n.look_up(**{q: v})
        return (plain(r.value), tuple(map(str, r.path)))

    def o_type(self, env, p, raw):
        t = env.dm.get_schema_node(p).type
        v = t.from_raw(raw)
        out = [plain(v), str(t)]
        for q in ("sorted_enums", "sorted_bits"):
            if hasattr(t, q):
                out.append(getattr(t, q)())
        if v is not None:
            ok = v in t
            out.append((ok, None if ok else (t.error_tag, t.error_message)))
            if ok:
                out.append((repr(t.to_raw(v)), t.canonical_string(v), t.to_xml(v)))
        w = t.parse_value(str(raw))
        out.append(plain(w))
        return out


def sortd(v):
    if isinstance(v, dict):
        return {k: sortd(v[k]) for k in sorted(v)}
    if isinstance(v, list):
        return [sortd(x) for x in v]
    return v


def datapath(s):
    out = []
    while s.parent is not None:
        if s.kw not in ("choice", "case"):
            out.append(s)
        s = s.parent
    return reversed(out)


KINDS = (["schema-node", "data-node", "from-raw", "xml", "iid", "rid", "raw-value", "str", "hash", "walk", "put", "delete", "insert", "update",
          "merge", "look-up", "operation", "operation", "type", "type", "identities"] + ["xpath"] * 3 + ["validate"] * 4 + ["add-defaults"] * 3)
