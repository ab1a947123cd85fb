"""Reference instance data: decoding, canonical JSON, in-use defaults,
validation verdicts, all on plain trees and straight from RFC 7950/7951."""
import re
from . import rxpath
from .rtypes import TypeErr, canon, to_json


class RawErr(Exception):
    def __init__(self, kind, path):
        super().__init__(f"{kind} at {'/'.join(map(str, path))}")
        self.kind = kind
        self.path = path


class RI:
    """Instance: root, container, list entry, leaf, leaf-list entry, anydata."""
    skip_any = False        # leave out expressions that use the content of anydata

    def __init__(self, node, parent, key=None):
        self.node = node
        self.parent = parent
        self.val = None
        self.kids = []
        self.key = key           # index for entries
        self.isdefault = False
        self._xk = None
        self._busy = set()
        self._defs = {}
        self.raw = None
        self.present_arrays = set()   # nodes with an (even empty) array
        self.anns = {}                # member iname -> annotation object

    def xp_parent(self):
        return self.parent

    def xp_qn(self):
        return None if self.parent is None else (self.node.ns, self.node.name)

    def xp_string(self):
        if self.val is not None:
            return canon(*self.val)
        if RI.skip_any and self.node.kw in ("anydata", "anyxml"):
            raise rxpath.XSkip("string value of anydata")
        return "".join(c.xp_string() for c in self.xp_children())

    def xp_children(self):
        if self._xk is None:
            res = list(self.kids)
            if self.val is None and self.node.kw not in ("anydata", "anyxml"):
                # children being decided (when conditions) are not seen
                outer = not self._busy
                add_defaults_into(self, res)
                if not outer:
                    return res
            self._xk = res
        return self._xk

    def xp_rank(self):
        if self.parent is None:
            return ()
        for i, k in enumerate(self.parent.kids):
            if k is self:
                break
        else:
            i = 10**6         # a node assumed to exist while being decided
            if self.isdefault:
                ds = [d for l in self.parent._defs.values() for d in l]
                for j, d in enumerate(ds):
                    if d is self:
                        i = 10**5 + j
        return self.parent.xp_rank() + (i,)

    def group(self, node):
        return [k for k in self.kids if k.node is node]

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def path(self):
        """Path in the shape of yangson's instance path."""
        r = []
        n = self
        while n.parent is not None:
            if n.key is not None:
                r.append(n.key)
            r.append(n.node.iname())
            n = n.parent
        return tuple(r[::-1])

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def copy(self, parent=None):
        r = RI(self.node, parent, self.key)
        r.val = self.val
        r.raw = self.raw
        r.isdefault = self.isdefault
        r.present_arrays = set(self.present_arrays)
        r.kids = [k.copy(r) for k in self.kids]
        return r


# -- decoding / encoding ---------------------------------------------------

def decode(rnode, raw, lib, path=()):
    r = RI(rnode, None)
    r.lib = lib
    _decode_obj(r, raw, path)
    return r


def _decode_obj(ri, raw, path):
    if not isinstance(raw, dict):
        raise RawErr("type", path)
    node = ri.node
    for name, val in raw.items():
        if name.startswith("@"):
            continue
        p, s, loc = name.partition(":")
        ns, ln = (p, loc) if s else (node.ns, p)
        c = node.dchild(ns, ln)
        if c is None and node.kw == "root":
            c = node.child(ns, ln)
            if c is not None and c.kw not in ("rpc", "notification"):
                c = None
        if c is None and node.kw in ("rpc", "action"):
            c = node.child(ns, ln)
        if c is None:
            raise RawErr("member", path + (name,))
        _decode_member(ri, c, val, path + (name,))


def _decode_member(ri, c, val, path):
    if c.kw in ("list", "leaf-list"):
        if not isinstance(val, list):
            raise RawErr("type", path)
        ri.present_arrays.add(c)
        for i, v in enumerate(val):
            e = RI(c, ri, i)
            if c.kw == "list":
                _decode_obj(e, v, path + (i,))
            else:
                e.raw = v
                e.val = _scalar(c, v, path + (i,))
            ri.kids.append(e)
        return
    e = RI(c, ri)
    if c.kw == "leaf":
        e.raw = val
        e.val = _scalar(c, val, path)
    elif c.kw in ("anydata", "anyxml"):
        e.raw = val
    else:
        _decode_obj(e, val, path)
    ri.kids.append(e)


def _scalar(c, v, path):
    try:
        return c.type.from_json(v, c.ns)
    except TypeErr as e:
        raise RawErr("value:" + e.why, path)


def encode(ri):
    """Canonical raw (JSON) value of an instance."""
    if ri.val is not None:
        return to_json(*ri.val)
    if ri.node.kw in ("anydata", "anyxml"):
        return ri.raw
    out = {}
    for k in ri.kids:
        n = k.node.iname()
        if k.node.kw in ("list", "leaf-list"):
            out.setdefault(n, []).append(encode(k))
        else:
            out[n] = encode(k)
    for n in ri.present_arrays:
        out.setdefault(n.iname(), [])
    return out


def canon_raw(raw):
    """Order-insensitive (for members) comparison form of a raw value."""
    if isinstance(raw, dict):
        return tuple(sorted((k, canon_raw(v)) for k, v in raw.items()))
    if isinstance(raw, list):
        return ("[",) + tuple(canon_raw(x) for x in raw)
    return (type(raw).__name__, raw)


# -- XPath environment -----------------------------------------------------

def env_for(tmod, ns, lib):
    pm = {p: m.name for p, m in tmod.prefixes.items()}
    return rxpath.Env(pm, ns, hooks(lib, tmod))


def hooks(lib, tmod):
    def pname(s):
        p, sep, n = s.partition(":")
        if sep and p not in tmod.prefixes:
            raise rxpath.XSkip("unknown prefix")
        return (tmod.prefixes[p].name, n) if sep else (tmod.main, p)

    def direct(n):
        """RFC 7950 does not say whether union and leafref leaves count."""
        if n.val and n.node.type.base in ("union", "leafref"):
            raise rxpath.XSkip("type behind union or leafref")
        return n

    def derived(args, c, env, orself):
        base = pname(rxpath.to_str(args[1]))
        for n in args[0]:
            if n.val and n.val[0][0] == "id":
                direct(n)
                i = n.val[0][1]
                if lib.derived(i, base) or (orself and i == base):
                    return True
        return False

    def enum_value(args, c, env):
        if args[0]:
            n = args[0][0]
            if n.val and n.val[0][0] == "enum":
                direct(n)
                return float(n.val[1].enums[n.val[0][1]])
        return float("nan")

    def bit_is_set(args, c, env):
        if args[0]:
            n = args[0][0]
            if n.val and n.val[0][0] == "bits":
                direct(n)
                return rxpath.to_str(args[1]) in n.val[0][1]
        return False

    def re_match(args, c, env):
        from .rtypes import PATTERNS
        p = rxpath.to_str(args[1])
        if p in PATTERNS:
            return re.fullmatch(PATTERNS[p][0], rxpath.to_str(args[0])) is not None
        if p in env.patterns:
            return bool(env.patterns[p].match(rxpath.to_str(args[0])))
        raise rxpath.XSkip("unknown pattern")

    def deref(args, c, env):
        if not args[0]:
            return []
        n = args[0][0]
        if n.val is None:
            return []
        if n.node.type.base == "instance-identifier" and lib.iid is not None:
            raise rxpath.XSkip("instance identifier")
        return leafref_targets(n, lib)
    return {"derived-from": lambda a, c, e: derived(a, c, e, False),
            "derived-from-or-self": lambda a, c, e: derived(a, c, e, True),
            "enum-value": enum_value, "bit-is-set": bit_is_set,
            "re-match": re_match, "deref": deref}


def leafref_targets(ri, lib):
    t = ri.node.type
    if t.base != "leafref":
        return []
    env = env_for(t.pathctx, ri.node.ns, lib)
    ns = rxpath.evaluate(t.path, ri, env)
    s = ri.xp_string()
    return [n for n in ns if n.xp_string() == s]


def when_ok(c, pri, lib, existing=None):
    """Do all when conditions of schema node c hold in parent instance pri?"""
    for expr, ctx, tmod in c.whens:
        env = env_for(tmod, c.ns, lib)
        if ctx == "parent":
            node = pri
        elif existing is not None:
            node = existing
        else:
            node = Dummy(c, pri)
        if not rxpath.to_bool(rxpath.evaluate(expr, node, env)):
            return False
    return True


class Dummy(RI):
    """Temporary node for 'when' of an absent node."""

    def __init__(self, node, parent):
        super().__init__(node, parent)

    def xp_children(self):
        return []

    def xp_string(self):
        return ""

    def xp_rank(self):
        return self.parent.xp_rank() + (10**6,)


# -- defaults ----------------------------------------------------------------

def leaf_defaults(c):
    """[(val, type)] defaults of a leaf/leaf-list ([] if none)."""
    if c.kw == "leaf":
        if c.mandatory:
            return []
        d = c.default[-1:] or ([c.type.default] if c.type.default else [])
    else:
        if c.minel > 0:
            return []
        d = c.default or ([c.type.default] if c.type.default else [])
    return [c.type.from_text(txt, c.ns, tm) for txt, tm in d]


def active_case(choice, ri):
    for case in choice.children:
        for d in case.dchildren():
            if any(k.node is d for k in ri.kids) or d in ri.present_arrays:
                return case
    return None


def default_case(choice, tmod=None):
    if not choice.default:
        return None
    txt, tm = choice.default[-1]
    p, s, n = txt.partition(":")
    ns = tm.prefixes[p].name if s else choice.ns
    return choice.child(ns, n if s else p)


def add_defaults_into(ri, out, ctype="all", lib=None):
    """Append the missing in-use default children of instance ri to `out`."""
    lib = lib or ri.root().lib

    def scan(snode):
        for c in snode.children:
            if c in ri._busy:
                continue
            if c.kw == "choice":
                one(c)
                continue
            ri._busy.add(c)
            try:
                one(c)
            finally:
                ri._busy.discard(c)

    def one(c):
        if c.kw == "choice":
            ac = active_case(c, ri) or default_case(c)
            if ac is None or not ctype_ok(c, ctype):
                return
            ri._busy.add(c)
            try:
                ok = when_ok(c, ri, lib) and when_ok(ac, ri, lib)
            finally:
                ri._busy.discard(c)
            if ok:
                scan(ac)
            return
        if not c.isdata() or c.kw in ("input", "output", "notification"):
            return
        if not ctype_ok(c, ctype):
            return
        if any(k.node is c for k in ri.kids) or c in ri.present_arrays:
            return
        if c.kw in ("leaf", "leaf-list"):
            ds = leaf_defaults(c)
            if not ds or not when_ok(c, ri, lib):
                return
            if c not in ri._defs:
                ri._defs[c] = []
                for i, d in enumerate(ds):
                    e = RI(c, ri, i if c.kw == "leaf-list" else None)
                    e.val = d
                    e.isdefault = True
                    ri._defs[c].append(e)
            out.extend(ri._defs[c])
        elif c.kw == "container" and not c.presence:
            if not when_ok(c, ri, lib):
                return
            if c not in ri._defs:
                e = RI(c, ri)
                e.isdefault = True
                ri._defs[c] = [e]
            out.extend(ri._defs[c])
    scan(ri.node)


def with_defaults(ri, ctype="all", parent=None):
    """Copy of ri with all in-use defaults materialised (recursively)."""
    lib = ri.root().lib
    return _wd(ri, ctype, lib)


def _wd(ri, ctype, lib):
    """Returns a raw JSON value with defaults."""
    if ri.val is not None:
        return to_json(*ri.val)
    if ri.node.kw in ("anydata", "anyxml"):
        return ri.raw
    add = []
    add_defaults_into(ri, add, ctype, lib)
    out = {}
    for k in ri.kids:
        n = k.node.iname()
        v = _wd(k, ctype, lib)
        if k.node.kw in ("list", "leaf-list"):
            out.setdefault(n, []).append(v)
        else:
            out[n] = v
    for n in ri.present_arrays:
        out.setdefault(n.iname(), [])
    for k in add:
        n = k.node.iname()
        v = _wd(k, ctype, lib)
        if k.node.kw == "leaf-list":
            out.setdefault(n, []).append(v)
        else:
            out[n] = v
    return out


def ctype_ok(c, ctype):
    """Is schema node c part of data with content type ctype?"""
    if ctype == "all":
        return True
    if c.kw in ("leaf", "leaf-list", "anydata", "anyxml"):
        return c.config == (ctype == "config")
    if ctype == "config":
        return c.config
    return True


# -- validation ----------------------------------------------------------------

def validate(root, lib, ctype="config", scope="all"):
    """Set of (kind, path) of every violated constraint."""
    errs = []
    _val(root, lib, ctype, scope, errs)
    return errs


def _val(ri, lib, ctype, scope, errs):
    node = ri.node
    syn = scope in ("syntax", "all")
    sem = scope in ("semantics", "all")
    if node.kw in ("anydata", "anyxml"):
        if sem:
            _musts(ri, lib, errs)
        return
    if ri.val is not None:
        if syn:
            try:
                ri.val[1].check(ri.val[0])
            except TypeErr:
                errs.append(("type", ri.path()))
        if sem:
            if node.type.base == "leafref" and node.type.require:
                if not leafref_targets(ri, lib):
                    errs.append(("leafref", ri.path()))
            if node.type.base == "instance-identifier" and node.type.require and lib.iid is not None:
                if lib.iid(ri.root(), ri.xp_string()) is None:
                    errs.append(("leafref", ri.path()))
            _musts(ri, lib, errs)
        return
    if syn:
        _members(ri, node, lib, ctype, errs)
    if sem:
        for c in ri.present_arrays:
            _array(ri, c, lib, errs)
        if node.kw not in ("root", "rpc", "action", "notification"):
            _musts(ri, lib, errs)
    for k in ri.kids:
        _val(k, lib, ctype, scope, errs)


def _musts(ri, lib, errs):
    for expr, tag, msg, tmod in ri.node.musts:
        env = env_for(tmod, ri.node.ns, lib)
        if not rxpath.to_bool(rxpath.evaluate(expr, ri, env)):
            errs.append(("must", ri.path(), tag or "must-violation", msg))


def _has(ri, d):
    return d in ri.present_arrays or any(k.node is d for k in ri.kids)


def _members(ri, node, lib, ctype, errs):
    """Schema constraints among the members of object ri."""
    def scan(snode, live):
        """live: the cases/choices above are allowed here (whens true)"""
        for c in snode.children:
            if c.kw in ("rpc", "action", "notification"):
                continue
            ok = live and when_ok(c, ri, lib,
                                  _inst(ri, c)) and ctype_ok(c, ctype)
            if c.kw == "choice":
                act = [k for k in c.children
                       if any(_has(ri, d) for d in k.dchildren())]
                if len(act) > 1:
                    for k in act[1:]:
                        for d in k.dchildren():
                            if _has(ri, d):
                                errs.append(("not-allowed", ri.path(), d.iname()))
                for k in c.children:
                    kok = ok and when_ok(k, ri, lib)
                    if k in act:
                        scan(k, kok)
                if ok and c.mandatory and not act:
                    errs.append(("missing", ri.path(), c))
                continue
            if _has(ri, c):
                if not ok:
                    errs.append(("not-allowed", ri.path(), c.iname()))
            elif ok and needs(c, ri, lib, ctype):
                errs.append(("missing", ri.path(), c))
    scan(node, True)


def _inst(ri, c):
    if c.kw in ("list", "leaf-list", "choice", "case"):
        return None
    g = ri.group(c)
    return g[0] if g else None


def needs(c, ri, lib, ctype):
    """Is the absent node c required to exist in ri?"""
    if c.kw in ("leaf", "anydata", "anyxml"):
        return c.mandatory
    if c.kw in ("list", "leaf-list"):
        return c.minel > 0
    if c.kw == "container" and not c.presence:
        # descend: the container implicitly exists
        e = RI(c, ri)

        def scan(snode):
            for d in snode.children:
                if d.kw in ("rpc", "action", "notification"):
                    continue
                if not ctype_ok(d, ctype) or not when_ok(d, e, lib):
                    continue
                if d.kw == "choice":
                    if d.mandatory:
                        return True
                    continue
                if needs(d, e, lib, ctype):
                    return True
            return False
        return scan(c)
    return False


def _array(ri, c, lib, errs):
    es = ri.group(c)
    path = ri.path() + (c.iname(),)
    if len(es) < c.minel:
        errs.append(("too-few", path))
    if c.maxel is not None and len(es) > c.maxel:
        errs.append(("too-many", path))
    if c.kw == "leaf-list":
        if c.config:
            vs = [e.val[0] for e in es]
            if len(set(vs)) < len(vs):
                errs.append(("dup-value", path))
        return
    if c.keys:
        seen = set()
        for e in es:
            kv = []
            for ns, k in c.keys:
                kn = c.dchild(ns, k)
                g = e.group(kn)
                kv.append(g[0].val[0] if g else None)
            if None in kv:
                errs.append(("key-missing", e.path()))
                continue
            kv = tuple(kv)
            if kv in seen:
                errs.append(("dup-key", path))
            seen.add(kv)
    for u in c.unique:
        seen = set()
        for e in es:
            tup = []
            for leafpath in u:
                cur = e
                for ns, n in leafpath:
                    nx = [k for k in cur.xp_children()
                          if (k.node.ns, k.node.name) == (ns, n)]
                    cur = nx[0] if nx else None
                    if cur is None:
                        break
                tup.append(None if cur is None else cur.val[0])
            if None in tup:
                continue
            tup = tuple(tup)
            if tup in seen:
                errs.append(("not-unique", path))
            seen.add(tup)
