"""C16: XML and JSON encodings of instance data."""
import copy
import json
import os
import random
import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from vf import dgen, rdata, rtypes, util
from vf.core import Group
from vf.gen import Profile, gen_model
from vf.hist import cr
from vf.rdata import RI
from vf.rtypes import TypeErr, canon
from checks.c03 import ANN, META, annotate
from checks import c08

PROPERTY = "C16"
RULE = ("random models; documents written as XML by an independent writer (arbitrary prefixes and default namespaces declared at any level, "
        "shuffled and interleaved elements, comments, CDATA, character references, non-canonical scalars) and read by XMLParser "
        "(whole or in pieces) and from_xml, and every exported document, inner node, operation and filtered selection read by an "
        "independent namespace-aware reader; one evaluation = one document or node; non-trivial if it has at least three elements")
ASSUMPTIONS = ["values of unions are those that the text of the element denotes (RFC 7950, section 9.12)",
               "an RPC message holds either input or output",
               "empty arrays have no XML form"]


class Odd(Exception):
    """XML that the data model does not allow."""


# -- reference: text of an element -> value -----------------------------------
def xtext(t, text, nsmap, mods):
    """Value of a leaf element; nsmap: prefix -> namespace, mods: namespace -> module."""
    t = t.effective()
    if t.base == "union":
        for m in t.members:
            try:
                return xtext(m, text, nsmap, mods)
            except TypeErr:
                continue
        raise TypeErr("union")
    if t.base == "identityref":
        p, s, n = text.rpartition(":")
        u = nsmap.get(p)
        if u not in mods:
            raise TypeErr("prefix")
        v = ("id", (mods[u], n))
        t.check(v)
        return v, t
    if t.base == "binary" and re.search(r"\s", text):
        raise Odd("white space in base64")      # rejected or ignored
    return t.from_text(text, None)


# -- reference reader: XML text -> (tag ns, tag name, attributes, nsmap, text, children)
def parse(text):
    p = ET.XMLPullParser(events=["start", "start-ns", "end-ns", "end"])
    p.feed(text)
    p.close()
    maps, pend, stack, root = [{}], {}, [], None
    for ev, x in p.read_events():
        if ev == "start-ns":
            pend[x[0] or ""] = x[1]
        elif ev == "start":
            maps.append({**maps[-1], **pend})
            pend = {}
            e = (*qname(x.tag), x, maps[-1], [])
            if stack:
                stack[-1][4].append(e)
            else:
                root = e
            stack.append(e)
        elif ev == "end":
            stack.pop()
            maps.pop()
    return root


def qname(tag):
    return tuple(tag[1:].split("}")) if tag[0] == "{" else (None, tag)


class Codec:
    def __init__(self, lib, rng):
        self.lib = lib
        self.rng = rng
        self.uri = {m.name: m.stmt.val("namespace") for m in lib.mods}
        self.mods = {u: n for n, u in self.uri.items()}

    # -- writer --
    def write(self, root, tag, uri, ri, style):
        """XML text of the children of ri in an element; values become what the text denotes."""
        self.style = style
        self.n = 0
        decl = {}
        if style["top"]:          # all declared by the document element
            for m in self.uri:
                decl[self.prefix(decl)] = self.uri[m]
        x = self.rng.random()
        if uri is None:
            decl[""] = self.rng.choice(["urn:unused", "urn:x"]) if x < 0.5 else self.rng.choice(list(self.uri.values()))
            if x > 0.8:
                del decl[""]
            return self.elem(tag, None, decl, {}, self.content(ri, dict(decl)))
        nsmap = {}
        name, d = self.name(uri, tag, {**decl})
        decl.update(d)
        return self.elem(name, None, decl, {}, self.content(ri, dict(decl)))

    def prefix(self, used):
        c = ["a", "b", "p", "x", "m-a", "m-b", "t", "_", "ns0", "é", "z.1"] + list(self.uri)
        for _ in range(20):
            p = self.rng.choice(c)
            if p not in used:
                return p
        while True:
            self.n += 1
            if f"n{self.n}" not in used:
                return f"n{self.n}"

    def name(self, uri, local, nsmap):
        """Qualified name for an element, and new declarations."""
        rng = self.rng
        ok = [p for p, u in nsmap.items() if u == uri]
        if ok and rng.random() < self.style["reuse"]:
            p = rng.choice(ok)
            return (p + ":" if p else "") + local, {}
        if rng.random() < 0.6:
            return local, {"": uri}
        p = self.prefix(nsmap) if rng.random() < 0.7 else self.prefix({})
        return f"{p}:{local}", {p: uri}

    def elem(self, name, text, decl, nsmap, body):
        rng = self.rng
        ats = [f'xmlns{":" + p if p else ""}={quoteattr(u)}' for p, u in decl.items()]
        rng.shuffle(ats)
        a = "".join(rng.choice([" ", "  ", "\n "]) + x for x in ats)
        if body == "" and rng.random() < 0.5:
            return f"<{name}{a}/>"
        return f"<{name}{a}>{body}</{name}>"

    def gap(self):
        r = self.rng.random()
        return "" if r < 0.6 else "\n  " if r < 0.8 else "<!-- c -->" if r < 0.9 else "<?pi x?>"

    def content(self, ri, nsmap):
        rng = self.rng
        groups = {}
        for k in ri.kids:
            groups.setdefault(k.node, []).append(k)
        out = []
        keys = list(ri.node.keys) if ri.node.kw == "list" and ri.node.keys else []
        seqs = [g for n, g in groups.items() if not (n.ns, n.name) in keys]
        first = [g for n, g in groups.items() if (n.ns, n.name) in keys]
        first.sort(key=lambda g: keys.index((g[0].node.ns, g[0].node.name)))
        rng.shuffle(seqs)
        todo = first + seqs
        items = [k for g in todo for k in g]
        if seqs and rng.random() < 0.4:        # entries of lists interleaved with siblings
            its = [list(g) for g in seqs]
            items = [k for g in first for k in g]
            while its:
                g = rng.choice(its)
                items.append(g.pop(0))
                its = [g for g in its if g]
        for k in items:
            out.append(self.gap())
            out.append(self.member(k, nsmap))
        if items:
            out.append(self.gap())
        return "".join(out)

    def member(self, k, nsmap):
        rng = self.rng
        name, decl = self.name(self.uri[k.node.ns], k.node.name, nsmap)
        if rng.random() < 0.05:
            p = self.prefix({**nsmap, **decl})
            if p not in decl:
                decl[p] = rng.choice(["urn:unused", *self.uri.values()])
        nm = {**nsmap, **decl}
        if k.val is None:
            return self.elem(name, None, decl, nsmap, self.content(k, nm))
        for attempt in range(6):
            text, d = self.text(k, nm, decl)
            try:
                val = xtext(k.node.type, text, {**nm, **d}, self.mods)
                # the canonical text, too (a member type may take only that)
                if val[0][0] != "id" and xtext(k.node.type, canon(*val), {**nm, **d}, self.mods)[0] != val[0]:
                    continue
            except TypeErr:
                continue
            decl.update(d)
            k.val = val
            k.raw = rtypes.to_json(*val)
            return self.elem(name, None, decl, nsmap, self.chars(text, val[1].effective().base))
        raise Odd(k.node.name)

    def text(self, k, nm, decl):
        v, t = k.val
        rng = self.rng
        if v[0] == "id":
            m, n = v[1]
            u = self.uri[m]
            ok = [p for p, x in nm.items() if x == u]
            if ok and rng.random() < 0.7:
                p = rng.choice(ok)
                return (p + ":" if p else "") + n, {}
            p = self.prefix(nm)
            if p in decl:
                p = "q9"
            return f"{p}:{n}", {p: u}
        s = canon(v, t)
        r = rng.random()
        if v[0] == "dec" and r < 0.2:
            s = s + ("0" if len(s.partition(".")[2]) < t.effective().fd else "")
        elif v[0] == "int" and v[1] > 0 and r < 0.1:
            s = "+" + s
        elif v[0] == "int" and v[1] > 0 and r < 0.15:
            s = "00" + s
        elif v[0] == "bits" and r < 0.3:
            ns = s.split()
            rng.shuffle(ns)
            s = " ".join(ns)
        return s, {}

    def chars(self, s, base):
        rng = self.rng
        r = rng.random()
        if r < 0.1 and s and "]]>" not in s and "\r" not in s:
            i = rng.randint(0, len(s))
            return self.esc(s[:i]) + f"<![CDATA[{s[i:]}]]>"
        if r < 0.2 and s:
            i = rng.randrange(len(s))
            return self.esc(s[:i]) + (f"&#{ord(s[i])};" if rng.random() < 0.5 else f"&#x{ord(s[i]):x};") + self.esc(s[i + 1:])
        if r < 0.25 and s:
            i = rng.randint(0, len(s))
            return self.esc(s[:i]) + rng.choice(["<!-- n -->", "<?pi?>"]) + self.esc(s[i:])
        return self.esc(s)

    def esc(self, s):
        return escape(s).replace("\r", "&#13;")

    # -- reader --
    def read(self, node, e, atts):
        """Instance of a node from an element."""
        root = RI(node, None)
        self.fill(root, e, atts, ())
        return root

    def fill(self, ri, e, atts, path):
        if (e[2].text or "").strip():
            raise Odd(f"text in {e[1]}")
        for c in e[4]:
            if c[0] not in self.mods:
                raise Odd(f"{c[1]} in namespace {c[0]}")
            mod = self.mods[c[0]]
            n = ri.node.dchild(mod, c[1])
            if n is None and ri.node.kw in ("rpc", "action"):
                n = ri.node.child(mod, c[1])
            if n is None:
                raise Odd(f"unexpected {c[1]} of {mod} in {e[1]}")
            if (c[2].tail or "").strip():
                raise Odd(f"text after {c[1]}")
            seq = n.kw in ("list", "leaf-list")
            k = RI(n, ri, len(ri.group(n)) if seq else None)
            if not seq and ri.group(n):
                raise Odd(f"repeated {c[1]}")
            ri.kids.append(k)
            p = path + (n.iname(),) + ((k.key,) if seq else ())
            if c[2].attrib:
                atts[p] = {qname(a): (v, c[3]) for a, v in c[2].attrib.items()}
            if n.kw in ("leaf", "leaf-list"):
                if c[4]:
                    raise Odd(f"element in {c[1]}")
                try:
                    k.val = xtext(n.type, c[2].text or "", c[3], self.mods)
                except TypeErr as x:
                    raise Odd(f"value {c[2].text!r} of {c[1]}: {x}")
            else:
                self.fill(k, c, atts, p)


URN = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"


class Obs:
    def __init__(self, ctx, rng, m, dm):
        self.ctx, self.rng, self.m, self.dm = ctx, rng, m, dm
        self.cx = Codec(m.lib, rng)

    def xml_root(self, text):
        """Element tree by XMLParser, fed at once or in pieces."""
        from yangson.xmlparser import XMLParser
        if self.rng.random() < 0.6:
            return XMLParser(text).root
        self.ctx.ev("documents fed in pieces")
        p = XMLParser()
        i = 0
        src = text.encode("utf-8") if self.rng.random() < 0.5 else text
        while i < len(src):
            j = i + self.rng.choice([1, 7, 40, 400])
            p.feed(src[i:j])
            if self.rng.random() < 0.7:
                p.parse()
            i = j
        p.close()
        p.parse()
        return p.root

    def from_xml(self, text, sub):
        r = self.xml_root(text)
        return self.dm.from_xml(r) if sub is None else self.dm.from_xml(r, sub)

    def one(self, root, raw, sub):
        """Both directions for one document."""
        ctx, rng, dm = self.ctx, self.rng, self.dm
        ri = rdata.decode(root, raw, self.m.lib)
        style = {"top": rng.random() < 0.4, "reuse": rng.choice([0.5, 0.9, 1])}
        io = None
        if root.kw in ("rpc", "action"):
            io = ri.kids[0]
            src = io
            tag, uri = io.node.kw, self.cx.uri[root.ns]
        elif root.kw == "notification":
            src, tag, uri = ri, root.name, self.cx.uri[root.ns]
        else:
            src, tag, uri = ri, rng.choice(["data", "config", "content-data"]), None
        for x in ri.walk():
            x.present_arrays = set()
        try:
            text = self.cx.write(root, tag, uri, src, style)
        except Odd:
            ctx.ev("documents without XML form")
            return
        can = self.qualify(root, rdata.encode(ri))
        det = dict(document=text, subschema=sub, model=util.model_text(self.m.lib))
        n = sum(1 for _ in ri.walk())
        ctx.case([text, sub], n > 3, text[:200])
        ctx.ev("elements", n)
        if sub:
            ctx.ev("operation documents")
        got = self.from_xml(text, sub)
        v = got.raw_value()
        ctx.check(cr(v) == cr(can), "from-xml", "document read from XML differs", got=v, want=can, **det)
        ref = dm.from_raw(copy.deepcopy(can)) if sub is None else dm.from_raw(copy.deepcopy(can), sub)
        ctx.check(cr(ref.raw_value()) == cr(can), "from-raw", "document read from JSON differs", got=ref.raw_value(), want=can, **det)
        ctx.check(got.value == ref.value, "equal", "values read from XML and JSON differ", **det)
        # the tag of the root is at will
        det["document"] = can
        e = ref.to_xml()
        out = ET.tostring(e, encoding="unicode")
        det["xml"] = out
        x = self.well_formed(out, det)
        if x is None:
            return
        if io is not None or root.kw == "notification":
            ctx.check(x[:2] == (uri, tag), "root-element", f"message element is {x[:2]} instead of {(uri, tag)}", **det)
        else:
            ctx.check(x[:2] == (URN, "content-data"), "root-element", f"document element is {x[:2]}", **det)
        back = self.read(src.node, x, det)
        if back is not None:
            w = rdata.encode(src)
            ctx.ev("exports compared")
            ctx.check(cr(back) == cr(w), "to-xml", "exported XML holds other data", got=back, want=w, **det)
        again = self.from_xml(out, sub)
        ctx.check(cr(again.raw_value()) == cr(can), "round-trip", "reading the export gives other data", got=again.raw_value(), **det)
        if sub is None:
            self.inner(ri, ref, det)
            self.filtered(root, ref, det)

    def qualify(self, root, v):
        if root.kw in ("root", "rpc", "action"):
            return v if root.kw == "root" else {f"{root.ns}:{k.rpartition(':')[2]}": x for k, x in v.items()}
        return {k if ":" in k else f"{root.ns}:{k}": x for k, x in v.items()}

    def well_formed(self, out, det):
        try:
            return parse(out)
        except ET.ParseError as e:
            self.ctx.fail("well-formed", f"exported XML is not well-formed: {e}", **det)

    def read(self, node, x, det, atts=None):
        a = {}
        try:
            ri = self.cx.read(node, x, a)
        except Odd as e:
            self.ctx.fail("structure", f"exported XML is not data of the model: {e}", **det)
            return None
        if atts is None:
            self.ctx.check(not a, "attributes", f"unexpected attributes {a}", **det)
        else:
            atts.update(a)
        return rdata.encode(ri)

    def inner(self, ri, inst, det):
        """Elements of inner nodes."""
        nodes = [k for k in ri.walk() if k.parent is not None]
        for k in self.rng.sample(nodes, min(8, len(nodes))):
            n = inst
            for s in k.path():
                n = n[s]
            if k.val is None and not k.kids:
                continue                  # nothing to export
            self.ctx.ev("inner nodes exported")
            out = ET.tostring(n.to_xml(), encoding="unicode")
            d = {**det, "xml": out, "node": str(k.path())}
            x = self.well_formed(out, d)
            if x is None:
                continue
            self.ctx.check(x[:2] == (self.cx.uri[k.node.ns], k.node.name), "inner-element", f"element is {x[:2]}", **d)
            if k.val is not None:
                try:
                    v = xtext(k.node.type, x[2].text or "", x[3], self.cx.mods)
                except TypeErr as e:
                    v = str(e)
                self.ctx.check(v[0] == k.val[0], "inner-value", f"text denotes {v} instead of {k.val}", **d)
                if not isinstance(v, str):
                    got = n.schema_node.entry_from_xml(self.xml_root(out)) if k.node.kw == "leaf-list" else \
                        n.schema_node.from_xml(self.xml_root(out))
                    self.ctx.check(got == n.value, "inner-read", f"reading the element gives {got!r}", **d)
            else:
                b = self.read(k.node, x, d)
                if b is not None:
                    w = rdata.encode(k)
                    self.ctx.check(cr(b) == cr(w), "inner-data", "element holds other data", got=b, want=w, **d)
                    got = n.schema_node.entry_from_xml(self.xml_root(out), "/x") if k.node.kw == "list" else \
                        n.schema_node.from_xml(self.xml_root(out), "/x")
                    self.ctx.check(got == n.value, "inner-read", "reading the element gives another value", got=str(got), **d)

    def filtered(self, root, inst, det):
        """A filter selects the same nodes in both encodings."""
        from yangson.instance import OutputFilter
        seed = self.rng.random()

        def keep(salt, node):
            return random.Random(f"{seed}{salt}{node.path}").random() > 0.08

        class F(OutputFilter):
            def begin_member(self, parent, node, attributes):
                return keep(1, node)

            def end_member(self, parent, node, attributes):
                return keep(2, node)

            def begin_element(self, parent, node, attributes):
                return keep(3, node)

            def end_element(self, parent, node, attributes):
                return keep(4, node)

        def tidy(v):
            """Without empty arrays and objects in arrays (left out of the comparison)."""
            if isinstance(v, dict):
                o = {k: tidy(x) for k, x in v.items()}
                return {k: x for k, x in o.items() if x != []}
            if isinstance(v, list) and v != [None]:
                return [x for x in map(tidy, v) if x != {}]
            return v
        out = ET.tostring(inst.to_xml(F()), encoding="unicode")
        d = {**det, "xml": out}
        x = self.well_formed(out, d)
        if x is None:
            return
        back = self.read(root, x, d)
        if back is None:
            return
        w = inst.raw_value(F())
        self.ctx.ev("filtered exports")
        self.ctx.check(cr(tidy(back)) == cr(tidy(w)), "filtered", "export through a filter differs from the JSON one", got=back, want=w, **d)


def build(ctx, rng, prof, extra=()):
    from yangson import DataModel
    m = gen_model(rng, prof)
    d = ctx.tmpdir()
    m.write(d, rng)
    lib = m.yang_library()
    ms = lib["ietf-yang-library:modules-state"]["module"]
    for name, rev, uri, text, conf in extra:
        with open(os.path.join(d, f"{name}@{rev}.yang"), "w") as f:
            f.write(text)
        ms.append({"name": name, "revision": rev, "namespace": uri, "conformance-type": conf})
    rng.shuffle(ms)
    ctx.ev("models built")
    return m, DataModel(json.dumps(lib), (d,))


XPROF = dict(when=0.02, must=0, augment=3, anydata=0)
HOSTILE = ["<", ">", "&", "a<b>&amp;\"'", "]]>", " ", "  a ", "\n", "a\tb", "é日本\U0001f600", "m-a:x", "a:b", "x:", ":", "<![CDATA[", "",
           "true", "1", "-0", "1.0", "\u2028", "{urn:a}b", "xmlns"]


def docs(m, rng, root, k):
    for _ in range(k):
        dg = dgen.DG(m.lib, rng, qualify=rng.choice([0, 0.3]), maxlist=rng.choice([1, 3, 5]),
                     density=rng.choice([0.3, 0.6, 0.9]), anydata=False, strs=HOSTILE if rng.random() < 0.6 else None)
        if root.kw == "rpc":
            io = [x for x in root.children if x.kw in ("input", "output")]
            if not io:
                continue
            io = rng.choice(io)
            raw = {f"{root.ns}:{io.kw}": dg.obj(io)}
        else:
            raw = dg.obj(root)
        while True:
            try:
                rdata.decode(root, raw, m.lib)
                break
            except rdata.RawErr as e:
                if not dg.drop(raw, e.path):
                    raw = None
                    break
        if raw is not None and not (root.kw == "rpc" and not raw):
            yield raw


def case(ctx, rng, prof=None):
    prof = prof or Profile(rpc=0.3, **XPROF)
    m, dm = build(ctx, rng, prof)
    o = Obs(ctx, rng, m, dm)
    for raw in docs(m, rng, m.lib.root, 4):
        o.one(m.lib.root, raw, None)
    for op in m.lib.root.children:
        if op.kw in ("rpc", "notification"):
            for raw in docs(m, rng, op, 2):
                o.one(op, raw, f"{op.ns}:{op.name}")


def flat(ctx, rng):
    case(ctx, rng, Profile(depth=2, width=5, when=0, must=0, augment=4, augtmod=True, unions=0.3, anydata=0,
                           choice=0.2, rpc=0.3))


# -- metadata annotations ------------------------------------------------------
EXTRA = [("ietf-yang-metadata", "2016-08-05", "urn:ietf:params:xml:ns:yang:ietf-yang-metadata", META, "import"),
         ("m-z", "2024-01-01", "urn:vf:m-z", ANN, "implement")]
WD = "ietf-netconf-with-defaults:default"
WDNS = "urn:ietf:params:xml:ns:netconf:default:1.0"


def expected(v, path, out, lists):
    """Annotations of a JSON value by the path of the element."""
    for k, x in v.items():
        if k == "@":
            out.setdefault(path, {}).update(x)
        elif k.startswith("@"):
            m = k[1:]
            if isinstance(x, list):
                for i, a in enumerate(x):
                    if a:
                        out.setdefault(path + (m, i), {}).update(a)
            elif m in v and isinstance(v[m], list) and path_kind(lists, path + (m,)):
                for i in range(len(v[m])):
                    out.setdefault(path + (m, i), {}).update(x)
            else:
                out.setdefault(path + (m,), {}).update(x)
        elif isinstance(x, dict):
            expected(x, path + (k,), out, lists)
        elif isinstance(x, list):
            for i, e in enumerate(x):
                if isinstance(e, dict):
                    expected(e, path + (k, i), out, lists)


def path_kind(lists, path):
    return tuple(p for p in path if isinstance(p, str)) in lists


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if not k.startswith("@")}
    if isinstance(v, list):
        return [strip(x) for x in v if x != []]
    return v


def noempty(v):
    if isinstance(v, dict):
        return {k: noempty(x) for k, x in v.items() if x != []}
    if isinstance(v, list):
        return [noempty(x) for x in v]
    return v


def annotations(ctx, rng):
    m, dm = build(ctx, rng, Profile(rpc=0.2, default=0.5, **XPROF), EXTRA)
    o = Obs(ctx, rng, m, dm)
    o.cx.uri["m-z"], o.cx.mods["urn:vf:m-z"] = "urn:vf:m-z", "m-z"
    root = m.lib.root
    lists = set()
    for x in root.walk():
        if x.kw == "leaf-list":
            lists.add(tuple(p.iname() for p in chain(x)))
    for raw in docs(m, rng, root, 4):
        ri = rdata.decode(root, raw, m.lib)
        for x in ri.walk():
            x.present_arrays = set()
        try:              # values of unions that have an XML form
            o.cx.write(root, "x", None, ri, {"top": False, "reuse": 1})
        except Odd:
            continue
        plain = rdata.encode(ri)
        tagged = rng.random() < 0.4
        can = copy.deepcopy(plain)
        if not tagged or rng.random() < 0.5:
            annotate(root, copy.deepcopy(plain), can, rng, rng.choice([0.1, 0.4]), {})
        if rng.random() < 0.3:
            can["@"] = {"m-z:num": 3}
        inst = dm.from_raw(copy.deepcopy(can))
        if tagged:
            inst = inst.add_defaults(tag=True)
            can = inst.raw_value()
            plain = strip(can)
        want = {}
        expected(can, (), want, lists)
        out = ET.tostring(inst.to_xml(), encoding="unicode")
        det = dict(document=can, xml=out, model=util.model_text(m.lib))
        ctx.case(["ann", can], len(want) > 0)
        x = o.well_formed(out, det)
        if x is None:
            continue
        atts = {}
        back = o.read(root, x, det, atts)
        if back is None:
            continue
        if x[2].attrib:
            atts[()] = {qname(a): (v, x[3]) for a, v in x[2].attrib.items()}
        ctx.check(cr(back) == cr(noempty(plain)), "annotated-data", "XML of annotated data holds other data", got=back, **det)
        for path in sorted(set(want) | set(atts), key=str):
            w = {(WDNS, "default") if k == WD else (o.cx.uri[k.partition(":")[0]], k.partition(":")[2]): v
                 for k, v in want.get(path, {}).items()}
            g = {}
            for k, (text, nsmap) in atts.get(path, {}).items():
                g[k] = text
                if k == ("urn:vf:m-z", "id"):
                    p, _, n = text.rpartition(":")
                    g[k] = o.cx.mods.get(nsmap.get(p), "?") + ":" + n
            w = {k: ("true" if v else "false") if isinstance(v, bool) else "" if v == [None] else str(v) for k, v in w.items()}
            ctx.ev("default tags" if (WDNS, "default") in w else "annotations compared")
            ctx.check(g == w, "annotations", f"attributes of {path} are {g} instead of {w}", **det)
        again = o.from_xml(out, None).raw_value()
        ok = cr(again) == cr(noempty(can))
        if not ok:
            ctx.fail("annotations-not-read" if cr(again) == cr(noempty(plain)) else "round-trip",
                     "annotations are not read from XML" if cr(again) == cr(noempty(plain)) else "reading the export gives other data",
                     got=again, **det)


def chain(x):
    out = []
    while x is not None and x.kw != "root":
        if x.kw not in ("choice", "case"):
            out.append(x)
        x = x.parent
    return out[::-1]


# -- instance identifiers --------------------------------------------------------
IID = """module m-i {
  yang-version 1.1; namespace "urn:vf:m-i"; prefix i;
  revision 2024-01-01;
  identity b; identity d { base b; }
  leaf one { type instance-identifier { require-instance false; } }
  leaf-list many { ordered-by user; config false; type instance-identifier { require-instance false; } }
  container c { leaf ref { type leafref { path "/one"; require-instance false; } }
    leaf-list u { config false; type union { type identityref { base b; } type instance-identifier { require-instance false; } type int8; } } }
}
"""


def iids(ctx, rng):
    m, dm = build(ctx, rng, Profile(depth=3, unions=0.2, choice=0.1, **XPROF),
                  [("m-i", "2024-01-01", "urn:vf:m-i", IID, "implement")])
    o = Obs(ctx, rng, m, dm)
    cx = o.cx
    cx.uri["m-i"], cx.mods["urn:vf:m-i"] = "urn:vf:m-i", "m-i"
    root = m.lib.root
    for raw in docs(m, rng, root, 3):
        ri = rdata.decode(root, raw, m.lib)
        nodes = [k for k in ri.walk() if k.parent is not None]
        ids = []
        for k in rng.sample(nodes, min(12, len(nodes))):
            st = c08.steps_of(k, lambda e: c08.selector(e, rng) or ("i", e.key))
            if any(holds_id(n) for n in chain_ri(k)):
                continue
            js, nsm = short(st), {}
            if c08.iid(js, rng) is None:
                continue
            ids.append(st)
        if not ids:
            continue

        def json_form(st):
            return c08.iid(short(st), random.Random(1))

        def xml_form(st, decl):
            cur = None
            out = []
            for s in st:
                if s[0] == "m":
                    cur = s[1] or cur
                    out.append(("m", pfx(cur, decl), s[2]))
                elif s[0] == "k":
                    out.append(("k", {(pfx(ns or cur, decl), n): t for (ns, n), t in s[1].items()}))
                else:
                    out.append(s)
            return c08.iid(out, rng)

        def pfx(mod, decl):
            u = cx.uri[mod]
            ok = [p for p, x in decl.items() if x == u]
            if ok and rng.random() < 0.8:
                return rng.choice(ok)
            p = cx.prefix(decl)
            while not p.isascii():           # RFC 7950: prefix = identifier
                p = cx.prefix(decl)
            decl[p] = u
            return p

        def leaf(name, st):
            decl = {}
            if isinstance(st, list):
                t = xml_form(st, decl)
            elif st == "id":
                p = cx.prefix(decl)
                decl[p] = "urn:vf:m-i"
                t = p + ":d"
            else:
                t = str(st)
            outer = {}
            if rng.random() < 0.5:
                outer = {p: u for p, u in decl.items() if rng.random() < 0.5}
            ats = "".join(f" xmlns:{p}={quoteattr(u)}" for p, u in decl.items() if p not in outer)
            e = f"<{name}{ats}>{escape(t)}</{name}>"
            return e, outer
        cx.n = 0
        u = [rng.choice([x, x, "id", 5]) for x in ids[:3]]
        c_js = {"ref": json_form(ids[0]), "u": [json_form(x) if isinstance(x, list) else {"id": "m-i:d", 5: 5}[x] for x in u]}
        want = {"m-i:one": json_form(ids[0]), "m-i:many": [json_form(x) for x in ids], "m-i:c": c_js}
        text = "<data>"
        body = ""
        for name, vals in (("one", ids[:1]), ("many", ids)):
            for st in vals:
                e, outer = leaf(name, st)
                e = e.replace(f"<{name}", f'<{name} xmlns="urn:vf:m-i"', 1)
                body += e if not outer else e.replace(f"<{name}", f"<{name}" + "".join(
                    f" xmlns:{p}={quoteattr(x)}" for p, x in outer.items()), 1)
        # prefixes declared by the parent element; an inner one may be the same
        inner, decls = "", {}
        for name, vals in (("ref", ids[:1]), ("u", u)):
            for st in vals:
                while True:
                    e, outer = leaf(name, st)
                    if all(decls.get(p, x) == x for p, x in outer.items()):
                        break
                decls.update(outer)
                inner += e
        text += body + '<c xmlns="urn:vf:m-i"' + "".join(f" xmlns:{p}={quoteattr(x)}" for p, x in decls.items()) + f">{inner}</c></data>"
        det = dict(document=text, want=want, model=util.model_text(m.lib))
        ctx.case(["iid", text], True, text[:300])
        ctx.ev("instance identifiers read", 2 + len(ids) + len(u))
        got = o.from_xml(text, None)
        ref = dm.from_raw(copy.deepcopy(want))
        ctx.check(got.value == ref.value, "iid-read", f"instance identifiers read from XML are {got.raw_value()}", **det)
        out = ET.tostring(ref.to_xml(), encoding="unicode")
        det["xml"] = out
        x = o.well_formed(out, det)
        if x is None:
            continue
        els = {n: [e for e in x[4] if e[1] == n] for n in ("one", "many", "c")}
        seq = [(els["one"], ids[:1]), (els["many"], ids)]
        for c in els["c"]:
            seq += [([e for e in c[4] if e[1] == "ref"], ids[:1]), ([e for e in c[4] if e[1] == "u"], u)]
        for es, sts in seq:
            if not ctx.check(len(es) == len(sts), "iid-elements", f"{len(es)} elements instead of {len(sts)}", **det):
                continue
            for e, st in zip(es, sts):
                ctx.ev("instance identifiers written")
                t = e[2].text or ""
                if not isinstance(st, list):
                    p, _, n = t.rpartition(":")
                    ok = t == "5" if st == 5 else (cx.mods.get(e[3].get(p)), n) == ("m-i", "d")
                    ctx.check(ok, "iid-union", f"{t} written for {st}", **det)
                    continue
                try:
                    g = full([("m", mod(s[1], e[3], cx), s[2]) if s[0] == "m" else
                              ("k", {(mod(p, e[3], cx), n): v for (p, n), v in s[1].items()}) if s[0] == "k" else s
                              for s in c08.parse_iid(t)])
                except (c08.Bad, KeyError) as err:
                    g = repr(err)
                ctx.check(g == full(short(st)), "iid-written", f"{t} written for {json_form(st)}", steps=str(g), **det)


def mod(p, nsmap, cx):
    """Module of a prefix: all names must have one in XML."""
    return cx.mods[nsmap[p]]


def short(st):
    """Steps with module names only where they change (RFC 7951)."""
    cur, out = None, []
    for s in st:
        if s[0] == "m":
            ns = s[1] or cur
            out.append(("m", ns if ns != cur else None, s[2]))
            cur = ns
        elif s[0] == "k":
            out.append(("k", {(ns if ns != cur else None, n): t for (ns, n), t in s[1].items()}))
        else:
            out.append(s)
    return out


def full(st):
    cur, out = None, []
    for s in st:
        if s[0] == "m":
            cur = s[1] or cur
            out.append(("m", cur, s[2]))
        elif s[0] == "k":
            out.append(("k", {(ns or cur, n): t for (ns, n), t in s[1].items()}))
        else:
            out.append(s)
    return out


def chain_ri(k):
    while k.parent is not None:
        yield k
        k = k.parent


def holds_id(k):
    """Selectors with identities have no agreed form in XML."""
    if k.node.kw == "leaf-list":
        return k.val[0][0] == "id"
    return k.node.kw == "list" and any(x.val is not None and x.val[0][0] == "id" for x in k.kids)


# -- not supported -----------------------------------------------------------------
ANY = """module m-y { yang-version 1.1; namespace "urn:y"; prefix y;
  container c { anydata d; anyxml x; leaf l { type string; } } }
"""


def anydata(ctx, rng):
    from yangson import DataModel
    from yangson.exceptions import NonexistentInstance
    d = ctx.tmpdir()
    with open(os.path.join(d, "m-y.yang"), "w") as f:
        f.write(ANY)
    dm = DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
        {"name": "m-y", "revision": "", "namespace": "urn:y", "conformance-type": "implement"}]}}), (d,))
    n = rng.choice("dx")
    doc = {"m-y:c": {"l": "v", n: {"m-y:c": {"l": rng.choice("abc")}}}}
    det = dict(document=doc)
    ctx.case(["any", doc], True)
    for what, f in (("export", lambda: ET.tostring(dm.from_raw(doc).to_xml())),
                    ("import", lambda: dm.from_xml(Obs(ctx, rng, Namespace(lib=Namespace(mods=[])), dm).xml_root(
                        f'<data><c xmlns="urn:y"><{n}><c><l>a</l></c></{n}></c></data>')).raw_value())):
        try:
            f()
        except (AttributeError, TypeError, NotImplementedError, NonexistentInstance) as e:
            ctx.fail("anydata-in-xml", f"{what} of anydata in XML fails: {e!r}", **det)


class Namespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)


GROUPS = [Group("rich", case, 500, 9000), Group("flat", flat, 500, 9000), Group("annotations", annotations, 150, 2000),
          Group("iids", iids, 120, 2000), Group("anydata", anydata, 4, 20)]
REQUIRE = {"elements": 60000, "exports compared": 3000, "operation documents": 800, "documents fed in pieces": 1500,
           "inner nodes exported": 8000, "filtered exports": 1000, "annotations compared": 1500, "default tags": 400,
           "instance identifiers read": 2000, "instance identifiers written": 2000}
