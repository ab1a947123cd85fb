"""Reference YANG compiler: expands statements into a schema tree, written
from RFC 7950 and sharing nothing with yangson."""
import re
from decimal import Decimal
from .rtypes import RType, BUILTIN, INTS, parse_ranges

DATADEFS = ("container", "list", "leaf", "leaf-list", "choice", "anydata",
            "anyxml", "uses")
DATANODES = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml",
             "input", "output", "notification")


class Mod:
    """One YANG (sub)module text together with its library data."""

    def __init__(self, stmt, rev, implement=True, features=(), ns=None):
        self.stmt = stmt
        self.name = stmt.arg
        self.rev = rev
        self.implement = implement
        self.features = set(features)
        self.subs = []            # Mod objects of submodules
        self.main = self.name     # main module name
        self.mainmod = self
        self.prefixes = {}        # prefix -> main Mod
        self.ns = ns or f"urn:vf:{self.name}"

    def texts(self):
        return [self] + self.subs


class RNode:
    def __init__(self, kw, name, ns, parent):
        self.kw = kw
        self.name = name
        self.ns = ns
        self.parent = parent
        self.children = []
        self.config = True
        self.whens = []     # (expr, 'self'|'parent', textmod)
        self.musts = []     # (expr, tag, msg, textmod)
        self.mandatory = False
        self.default = []   # [(text, textmod)]
        self.type = None
        self.typestmt = None
        self.keys = []      # [(ns, name)]
        self.unique = []    # [[ [(ns,name),...], ...]]
        self.minel = 0
        self.maxel = None
        self.user = False
        self.presence = False
        self.status = None
        self.units = None
        self.desc = None
        self.cfgexpl = None

    def __repr__(self):
        return f"<R {self.kw} {self.ns}:{self.name}>"

    def isdata(self):
        return self.kw in DATANODES

    def add(self, c):
        c.parent = self
        self.children.append(c)

    def child(self, ns, name):
        for c in self.children:
            if c.name == name and c.ns == ns:
                return c
        return None

    def dparent(self):
        p = self.parent
        while p is not None and not p.isdata() and p.kw != "root":
            if p.kw in ("rpc", "action"):
                break
            p = p.parent
        return p

    def dchildren(self):
        """Data node children, looking through choices and cases."""
        out = []
        for c in self.children:
            if c.kw in ("choice", "case"):
                out.extend(c.dchildren())
            elif c.kw in ("container", "list", "leaf", "leaf-list", "anydata",
                          "anyxml"):
                out.append(c)
        return out

    def dchild(self, ns, name):
        for c in self.dchildren():
            if c.name == name and c.ns == ns:
                return c
        return None

    def iname(self):
        dp = self.dparent()
        if dp is None or dp.kw == "root" or dp.ns != self.ns:
            return f"{self.ns}:{self.name}"
        return self.name

    def spath_t(self):
        return tuple(self.spath())

    def spath(self):
        """schema path as list of (ns, name)"""
        r = []
        n = self
        while n.kw != "root":
            r.append((n.ns, n.name))
            n = n.parent
        return r[::-1]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


class FeatErr(Exception):
    pass


def feature_eval(expr, lookup):
    toks = re.findall(r"\(|\)|[^\s()]+", expr)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def disj():
        v = conj()
        while peek() == "or":
            pos[0] += 1
            w = conj()
            v = v or w
        return v

    def conj():
        v = term()
        while peek() == "and":
            pos[0] += 1
            w = term()
            v = v and w
        return v

    def term():
        if peek() == "not":
            pos[0] += 1
            return not term()
        return atom()

    def atom():
        t = peek()
        if t is None:
            raise FeatErr(expr)
        pos[0] += 1
        if t == "(":
            v = disj()
            if peek() != ")":
                raise FeatErr(expr)
            pos[0] += 1
            return v
        if t in (")", "and", "or"):
            raise FeatErr(expr)
        return lookup(t)
    v = disj()
    if pos[0] != len(toks):
        raise FeatErr(expr)
    return v


class Lib:
    """A set of modules = one data model."""
    iid = None        # resolver of instance identifiers
    iid_ok = None     # checker of their syntax

    def __init__(self, mods):
        self.mods = mods                       # main modules, library order
        self.textmod = {}
        for m in mods:
            for t in m.texts():
                self.textmod[id(t.stmt)] = t
                t.main = m.name
                t.mainmod = m
        for m in mods:
            for t in m.texts():
                t.prefixes = {}
                pf = t.stmt.val("prefix")
                if t is m:
                    t.prefixes[pf] = m
                else:
                    t.prefixes[t.stmt.one("belongs-to").val("prefix")] = m
                for imp in t.stmt.all("import"):
                    rev = imp.val("revision-date")
                    cands = [x for x in mods if x.name == imp.arg and
                             (rev is None or x.rev == rev)]
                    cands.sort(key=lambda x: x.rev)
                    t.prefixes[imp.val("prefix")] = cands[-1]
        self.identities = {}                   # (mod,name) -> set of bases, implemented ones
        self.bases = {}                        # the same with those of import-only modules
        impl = {m.name for m in mods if m.implement}
        for m in mods:
            if not m.implement and m.name in impl:
                continue
            for t in m.texts():
                for st in t.stmt.all("identity"):
                    if not self.feat(st):
                        continue
                    for d in (self.identities, self.bases) if m.implement else (self.bases,):
                        d.setdefault((m.name, st.arg), set()).update(self.qname(b.arg, t) for b in st.all("base"))
        self.root = RNode("root", None, None, None)
        self._leafrefs = []
        self._build()

    # -- names -------------------------------------------------------------
    def tmod(self, st):
        while st.parent is not None:
            st = st.parent
        return self.textmod[id(st)]

    def qname(self, pname, tmod, dflt=None):
        p, s, n = pname.partition(":")
        if s:
            return (tmod.prefixes[p].name, n)
        return (dflt or tmod.main, p)

    def feat(self, st):
        t = self.tmod(st)
        for f in st.all("if-feature"):
            def look(x):
                p, s, n = x.partition(":")
                m = t.prefixes[p] if s else t.mainmod
                return (n if s else p) in m.features
            if not feature_eval(f.arg, look):
                return False
        return True

    def derived(self, ident, base):
        todo = [ident]
        seen = set()
        while todo:
            i = todo.pop()
            for b in self.bases.get(i, ()):
                if b == base:
                    return True
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return False

    def derived_set(self, base):
        return {i for i in self.identities if self.derived(i, base)}

    def find_def(self, kw, pname, st):
        """typedef/grouping visible at statement st."""
        t = self.tmod(st)
        p, s, n = pname.partition(":")
        m = t.prefixes[p] if s else t.mainmod
        n = n if s else p
        if m is t.mainmod:
            a = st.parent
            while a is not None:
                for d in a.all(kw):
                    if d.arg == n:
                        return d
                a = a.parent
        for x in m.texts():
            for d in x.stmt.all(kw):
                if d.arg == n:
                    return d
        raise KeyError((kw, pname))

    # -- types -------------------------------------------------------------
    def rtype(self, st, ns):
        t = self.tmod(st)
        if st.arg in BUILTIN:
            r = RType(st.arg)
            r.lib = self
            if r.base == "decimal64":
                r.fd = int(st.val("fraction-digits"))
            if r.base == "identityref":
                r.bases = [self.qname(b.arg, t) for b in st.all("base")]
            if r.base == "union":
                r.members = [self.rtype(x, ns) for x in st.all("type")]
            if r.base == "leafref":
                r.path = st.val("path")
                r.pathctx = t
            if r.base == "enumeration":
                r.enums = {}
                hi = None
                for e in st.all("enum"):
                    v = int(e.val("value")) if e.one("value") else \
                        (0 if hi is None else hi + 1)
                    hi = v if hi is None else max(hi, v)
                    if self.feat(e):
                        r.enums[e.arg] = v
            if r.base == "bits":
                r.bits = {}
                nxt = 0
                for e in st.all("bit"):
                    v = int(e.val("position")) if e.one("position") else nxt
                    nxt = max(nxt, v + 1)
                    if self.feat(e):
                        r.bits[e.arg] = v
            first = True
        else:
            d = self.find_def("typedef", st.arg, st)
            base = self.rtype(d.one("type"), ns)
            r = RType(base.base)
            for k, v in base.__dict__.items():
                setattr(r, k, list(v) if isinstance(v, list) else v)
            r.name = st.arg.split(":")[-1]
            if d.one("default"):
                r.default = (d.val("default"), self.tmod(d))
            if d.one("units"):
                r.units = d.val("units")
            first = False
            if r.base == "enumeration" and st.all("enum"):
                keep = {e.arg for e in st.all("enum") if self.feat(e)}
                r.enums = {k: v for k, v in r.enums.items() if k in keep}
            if r.base == "bits" and st.all("bit"):
                keep = {e.arg for e in st.all("bit") if self.feat(e)}
                r.bits = {k: v for k, v in r.bits.items() if k in keep}
        if st.val("require-instance") == "false":
            r.require = False
        rg = st.one("range")
        if rg:
            if r.base == "decimal64":
                q = Decimal(10) ** r.fd
                lo, hi = (Decimal(-2**63) / q, Decimal(2**63 - 1) / q)
                num = Decimal
            else:
                lo, hi = INTS[r.base]
                num = int
            if r.ranges:
                lo, hi = r.ranges[0][0], r.ranges[-1][1]
            r.ranges = parse_ranges(rg.arg, lo, hi, num)
            r.errs = dict(r.errs, range=(rg.val("error-app-tag"), rg.val("error-message")))
        ln = st.one("length")
        if ln:
            lo, hi = 0, 2**64 - 1
            if r.lengths:
                lo, hi = r.lengths[0][0], r.lengths[-1][1]
            r.lengths = parse_ranges(ln.arg, lo, hi, int)
            r.errs = dict(r.errs, length=(ln.val("error-app-tag"), ln.val("error-message")))
        for p in st.all("pattern"):
            r.patterns = r.patterns + [(p.arg, p.val("modifier") == "invert-match")]
        if first and r.base == "leafref":
            self._leafrefs.append(r)
        return r

    # -- tree --------------------------------------------------------------
    def _build(self):
        impl = [m for m in self.mods if m.implement]
        for m in impl:
            for t in m.texts():
                self._body(t.stmt, self.root, m.name)
        augs = [(a, m) for m in impl for t in m.texts()
                for a in t.stmt.all("augment")]
        while augs:
            rest = []
            for a, m in augs:
                if not self.feat(a):
                    continue
                tgt = self._descend(self.root, a.arg, self.tmod(a), m.name)
                if tgt is None:
                    rest.append((a, m))
                else:
                    self._augment(a, tgt, m.name)
            if len(rest) == len(augs):
                break
            augs = rest
        for m in impl:
            for t in m.texts():
                for d in t.stmt.all("deviation"):
                    tgt = self._descend(self.root, d.arg, t, m.name)
                    if tgt is not None:
                        self._deviate(d, tgt, t, m.name)
        self._post(self.root)

    def _post(self, n):
        for c in list(n.children):
            self._post(c)
        if n.kw == "list":
            for ns, k in n.keys:
                kn = n.dchild(ns, k)
                kn.mandatory = True
        if n.type is not None:
            self._resolve_leafrefs(n.type, n)

    def _resolve_leafrefs(self, t, node):
        if t.base == "leafref":
            tgt = self.leafref_target(t, node)
            t.target = tgt.type
            t.target_node = tgt
        for m in t.members:
            self._resolve_leafrefs(m, node)

    def leafref_target(self, t, node):
        path = re.sub(r"\[[^\]]*\]", "", t.path)
        path = re.sub(r"\s+", "", path)
        cur = node
        if path.startswith("/"):
            cur = self.root
            x = node
            while x is not None:
                if x.kw in ("rpc", "notification"):
                    pass
                x = x.parent
            path = path[1:]
        for step in path.split("/"):
            if step == "..":
                cur = cur.dparent()
            elif step:
                cur = cur.dchild(*self.qname(step, t.pathctx, node.ns))
            if cur is None:
                raise KeyError("leafref " + t.path)
        return cur

    def _descend(self, node, path, tmod, ns):
        for step in path.strip("/").split("/"):
            node = node.child(*self.qname(step, tmod, ns))
            if node is None:
                return None
        return node

    def _body(self, st, parent, ns):
        """Process the data definition substatements of st under parent."""
        for s in st.subs:
            if s.kw in ("container", "list", "leaf", "leaf-list", "choice",
                        "case", "anydata", "anyxml", "rpc", "action",
                        "notification"):
                self._node(s, parent, ns)
            elif s.kw == "uses":
                self._uses(s, parent, ns)

    def _node(self, s, parent, ns):
        if parent.kw == "choice" and s.kw != "case":
            # the implied case exists even if its node doesn't
            case = RNode("case", s.arg, ns, parent)
            case.config = parent.config
            parent.add(case)
            parent = case
        if not self.feat(s):
            return
        n = RNode(s.kw, s.arg, ns, parent)
        n.config = parent.config
        parent.add(n)
        t = self.tmod(s)
        if s.kw in ("rpc", "action"):
            for io in ("input", "output"):
                c = RNode(io, io, ns, n)
                c.config = False
                n.add(c)
                sub = s.one(io)
                if sub is not None:
                    for m in sub.all("must"):
                        c.musts.append((m.arg, m.val("error-app-tag"),
                                        m.val("error-message"), t))
                    self._body(sub, c, ns)
            n.config = False
        elif s.kw == "notification":
            n.config = False
        self._props(s, n, t, ns)
        if s.kw not in ("rpc", "action"):
            self._body(s, n, ns)

    def _setconfig(self, n, val):
        n.config = val
        n.cfgexpl = val

    def _props(self, s, n, t, ns):
        for p in s.subs:
            k = p.kw
            if k == "config":
                self._setconfig_tree(n, p.arg == "true")
            elif k == "mandatory":
                n.mandatory = p.arg == "true"
            elif k == "default":
                n.default.append((p.arg, t))
            elif k == "type":
                n.type = self.rtype(p, n.ns)
                n.typestmt = p
            elif k == "key":
                n.keys = [self.qname(x, t, n.ns) for x in p.arg.split()]
            elif k == "unique":
                n.unique.append(self._uniq(p, t, n.ns))
            elif k == "min-elements":
                n.minel = int(p.arg)
            elif k == "max-elements":
                n.maxel = None if p.arg == "unbounded" else int(p.arg)
            elif k == "ordered-by":
                n.user = p.arg == "user"
            elif k == "presence":
                n.presence = True
            elif k == "status":
                n.status = p.arg
            elif k == "units":
                n.units = p.arg
            elif k == "description":
                n.desc = p.arg
            elif k == "when":
                n.whens.append((p.arg, "parent" if n.kw in ("choice", "case")
                                else "self", t))
            elif k == "must":
                n.musts.append((p.arg, p.val("error-app-tag"),
                                p.val("error-message"), t))

    def _uniq(self, p, t, ns):
        return [[self.qname(x, t, ns) for x in u.split("/")]
                for u in p.arg.split()]

    def _uses(self, s, parent, ns):
        if not self.feat(s):
            return
        g = self.find_def("grouping", s.arg, s)
        t = self.tmod(s)
        # expand into a scratch node so that refine/augment paths only see
        # the nodes of this grouping
        tmp = RNode(parent.kw, parent.name, parent.ns, parent.parent)
        tmp.config = parent.config
        self._body(g, tmp, ns)
        for a in s.all("augment"):
            if not self.feat(a):
                continue
            tgt = self._descend(tmp, a.arg, t, ns)
            if tgt is not None:
                self._augment(a, tgt, ns)
        for r in s.all("refine"):
            tgt = self._descend(tmp, r.arg, t, ns)
            if tgt is None:
                continue
            if not self.feat(r):
                tgt.parent.children.remove(tgt)
                continue
            if tgt.kw in ("leaf", "leaf-list", "choice") and r.one("default"):
                tgt.default = []
            self._props(r, tgt, t, ns)
        when = s.one("when")
        for c in tmp.children:
            if when is not None:
                c.whens.append((when.arg, "parent", t))
            parent.add(c)

    def _augment(self, a, tgt, ns):
        tmp = RNode(tgt.kw, tgt.name, tgt.ns, tgt.parent)
        tmp.config = tgt.config
        self._body(a, tmp, ns)
        when = a.one("when")
        t = self.tmod(a)
        for c in tmp.children:
            if when is not None:
                c.whens.append((when.arg, "parent", t))
            tgt.add(c)

    def _deviate(self, d, tgt, t, ns):
        for dv in d.all("deviate"):
            act = dv.arg
            if act == "not-supported":
                if tgt in tgt.parent.children:
                    tgt.parent.children.remove(tgt)
                continue
            if act == "delete":
                for p in dv.subs:
                    if p.kw == "units":
                        tgt.units = None
                    elif p.kw == "must":
                        for i, m in enumerate(tgt.musts):
                            if norm_ws(m[0]) == norm_ws(p.arg):
                                del tgt.musts[i]
                                break
                    elif p.kw == "unique":
                        u = self._uniq(p, t, tgt.ns)
                        if u in tgt.unique:
                            tgt.unique.remove(u)
                    elif p.kw == "default":
                        tgt.default = [x for x in tgt.default if x[0] != p.arg]
                continue
            if act == "replace":
                for p in dv.subs:
                    if p.kw == "default":
                        tgt.default = []
            for p in dv.subs:
                if p.kw == "unique":
                    tgt.unique.append(self._uniq(p, t, tgt.ns))
                elif p.kw == "config":
                    self._setconfig_tree(tgt, p.arg == "true")
                else:
                    one = type(dv)(dv.kw, dv.arg)
                    one.parent = dv.parent
                    one.subs = [p]
                    self._props(one, tgt, t, tgt.ns)

    def _setconfig_tree(self, n, val):
        p = n
        while p is not None:
            if p.kw in ("rpc", "action", "notification"):
                return          # config has no meaning there
            p = p.parent
        self._setconfig(n, val)

        def down(x):
            for c in x.children:
                if c.kw in ("action", "notification", "rpc"):
                    continue
                if c.cfgexpl is None:
                    c.config = val
                    down(c)
        down(n)


def norm_ws(s):
    return re.sub(r"\s+", "", s)
