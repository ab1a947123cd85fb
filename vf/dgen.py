"""Random instance documents (RFC 7951 JSON values) for a reference schema,
valid ones and mutations of them."""
import base64
import copy
from . import rdata
from .rdata import RawErr
from .rtypes import INTS, PATTERNS, TypeErr, canon, to_json

STRS = ["", "a", "b", "c", "ab", "x", "x9x", "hello", "12", "a b", "-", "é",
        "1.5", "true", "123", "zz", "abcd", "1", "0", "10", "2", "A_b", "''",
        "q\"x", "<&>", "a/b", "[x]", "日本", "5", "3"]


class NoValue(Exception):
    pass


def gen_value(t, rng, tries=12, strs=None):
    """A valid raw value of the type (NoValue if none is found); strs: preferred strings."""
    e = t.effective()
    if e.base == "union":
        for _ in range(6):
            m = rng.choice(e.members)
            try:
                raw = gen_value(m, rng, tries, strs)
            except NoValue:
                continue
            # the canonical form of some values is read as another member type
            try:
                v, m = e.from_json(raw, None)
                v2, m2 = e.from_json(canon(v, m), None)
            except TypeErr:
                continue
            if m2 is m and v2 == v:
                return raw
        raise NoValue
    b = e.base
    if b in INTS:
        if e.ranges:
            lo, hi = rng.choice(e.ranges)
        else:
            lo, hi = INTS[b]
        v = rng.choice([lo, hi, rng.randint(lo, hi),
                        min(hi, max(lo, rng.randint(-3, 12))),
                        min(hi, max(lo, rng.randint(0, 5)))])
        return str(v) if b in ("int64", "uint64") else v
    if b == "decimal64":
        from decimal import Decimal
        c = ["0", "1.5", "-0.5", "2", "3.25", "0.1", "-7.125", "9.2", "5", "1", "-1.5", "3.0",
             "0.000001", "0.3"]
        if e.ranges:
            for lo, hi in e.ranges:
                c += [format(lo, "f"), format(hi, "f")]
        rng.shuffle(c)
        for x in c:
            try:
                v, m = e.from_json(x, None)
                if rng.random() < 0.3:
                    return x
                return canon(v, m)
            except TypeErr:
                continue
        raise NoValue
    if b == "string":
        pool = []
        for p, inv in e.patterns:
            pool += PATTERNS[p][2 if inv else 1]
        cand = [rng.choice(pool) for _ in range(tries)] if pool else []
        cand += [rng.choice(STRS) for _ in range(tries)]
        if rng.random() < 0.4:
            cand.insert(0, "v%d" % rng.randrange(1000))
        if strs:
            cand[:0] = [rng.choice(strs) for _ in range(4)]
        for x in cand + pool:
            try:
                e.check(("str", x))
                return x
            except TypeErr:
                continue
        raise NoValue
    if b == "boolean":
        return rng.random() < 0.5
    if b == "empty":
        return [None]
    if b == "enumeration":
        if not e.enums:
            raise NoValue
        return rng.choice(sorted(e.enums))
    if b == "bits":
        names = sorted(e.bits, key=lambda n: e.bits[n])
        names = [n for n in names if rng.random() < 0.5]
        return " ".join(names)
    if b == "binary":
        for _ in range(tries):
            x = bytes(rng.randrange(256) for _ in range(rng.randint(0, 5)))
            if e.haslen(len(x)):
                return base64.b64encode(x).decode()
        raise NoValue
    if b == "identityref":
        c = sorted(i for i in e.lib.identities
                   if all(e.lib.derived(i, bs) for bs in e.bases))
        if not c:
            raise NoValue
        return "%s:%s" % rng.choice(c)
    raise NoValue


def bad_value(t, rng):
    """A raw value that is (very likely) not in the type."""
    e = t.effective()
    c = [None, {}, [], [1], {"a": 1}, "???\u0001", 10**30, -1.5, "\n", True, False,
         "", "0x1F", " 1", "1 ", "1_0", "NaN", "1e3", "--1", "01", "+1", 3, "3", -129,
         70000, "é", [None, None], [[None]]]
    b = e.base
    if b in INTS:
        r = e.ranges or [INTS[b]]
        lo, hi = rng.choice(r)
        v = rng.choice([lo - 1, hi + 1])
        c += [str(v) if b in ("int64", "uint64") else v] * 25
    if b == "decimal64":
        c += ["99999999999999999999", "1.", ".5", "1.2.3", "Infinity", "1E1", "1,5"] * 3
        c += [1.5, 1]
    if b == "string":
        for p, inv in e.patterns:
            c += list(PATTERNS[p][1 if inv else 2]) * 6
        if e.lengths:
            for lo, hi in e.lengths:
                c += ["a" * max(0, lo - 1), "a" * min(hi + 1, 300)] * 6
    if b == "enumeration":
        c += ["nosuch", " red", "RED", ""] * 5
    if b == "bits":
        ns = sorted(e.bits)
        c += ["nosuch", ",".join(ns)] * 5
        if ns:
            c += [ns[0] + " nosuch", ns[0] + " " + ns[0]] * 5
    if b == "binary":
        c += ["a", "ab=", "====", "Zm9", "Zg=", "Zg==Zg==", "Z*=="] * 4
        if e.lengths:
            c += [base64.b64encode(b"x" * min(400, hi + 1)).decode() for _, hi in e.lengths] * 5
    if b == "identityref":
        c += ["m-a:nosuch", "nosuch:x", "nosuch", ":x", "m-a:"] * 4
        c += ["%s:%s" % i for i in sorted(e.lib.identities)] * 2
        c += ["%s:%s" % i for i in e.bases] * 4
    if b == "boolean":
        c += ["true", "false", 1, 0] * 4
    if b == "empty":
        c += [None, [], "", [1], {}] * 4
    return rng.choice(c)


class DG:
    """Document generator."""

    def __init__(self, lib, rng, density=0.6, state=True, maxlist=3, qualify=0.0,
                 anydata=True, minlist=0, strs=None):
        self.strs = strs
        self.minlist = minlist
        self._nest = 0
        self.lib = lib
        self.rng = rng
        self.density = density
        self.state = state
        self.maxlist = maxlist
        self.qualify = qualify
        self.anydata = anydata

    def obj(self, node):
        out = {}
        self.members(node, out)
        if self.rng.random() < 0.4:
            ks = list(out)
            self.rng.shuffle(ks)
            out = {k: out[k] for k in ks}
        return out

    def name(self, c):
        n = c.iname()
        if self.qualify and ":" not in n and self.rng.random() < self.qualify:
            return f"{c.ns}:{n}"
        return n

    def members(self, node, out):
        rng = self.rng
        for c in node.children:
            if c.kw == "choice":
                if not self.state and not c.config:
                    continue
                cases = [k for k in c.children]
                if cases and (c.mandatory or rng.random() < self.density):
                    self.members(rng.choice(cases), out)
                continue
            if c.kw in ("rpc", "action", "notification", "input", "output"):
                continue
            if not self.state and not c.config:
                continue
            must = c.mandatory or (c.minel or 0) > 0 or \
                (c.parent is not None and any(
                    c.name == k and c.ns == ns for ns, k in node.keys))
            if not must and rng.random() >= self.density:
                continue
            try:
                out[self.name(c)] = self.node(c)
            except NoValue:
                pass

    def value(self, c):
        v = gen_value(c.type, self.rng, strs=self.strs)
        if self.qualify and isinstance(v, str) and v.startswith(c.ns + ":") and \
                c.type.effective().base == "identityref" and self.rng.random() < 0.5:
            return v[len(c.ns) + 1:]        # the prefix is optional
        return v

    def node(self, c):
        rng = self.rng
        if c.kw == "leaf":
            return self.value(c)
        if c.kw == "container":
            return self.obj(c)
        if c.kw in ("anydata", "anyxml"):
            return gen_any(rng)
        nested = self._nest > 0
        hi = max(c.minel, min(3, self.maxlist) if nested else self.maxlist)
        if c.maxel is not None:
            hi = min(hi, c.maxel)
        n = rng.randint(min(hi, max(c.minel, 0 if nested else self.minlist)), hi)
        out = []
        seen = set()
        for _ in range(n * 3):
            if len(out) >= n:
                break
            if c.kw == "leaf-list":
                v = self.value(c)
                k = repr(v)
                if k in seen and c.config:
                    continue
                seen.add(k)
                out.append(v)
            else:
                self._nest += 1
                try:
                    e = self.obj(c)
                finally:
                    self._nest -= 1
                if c.keys:
                    try:
                        k = repr([self._get(e, c, x) for x in c.keys])
                    except KeyError:
                        continue
                    if k in seen:
                        continue
                    seen.add(k)
                out.append(e)
        return out

    def _get(self, e, c, k):
        kn = c.dchild(*k)
        for nm in (kn.iname(), f"{kn.ns}:{kn.name}"):
            if nm in e:
                return e[nm]
        raise KeyError(k)

    # -- valid documents -----------------------------------------------------
    def valid(self, ctype="config", node=None, rounds=25):
        """(raw, root RI) of a valid document, or None."""
        root = node or self.lib.root
        raw = self.obj(root)
        for _ in range(rounds):
            try:
                ri = rdata.decode(root, raw, self.lib)
            except RawErr as e:
                if not self.drop(raw, e.path):
                    return None
                continue
            errs = rdata.validate(ri, self.lib, ctype)
            if not errs:
                return raw, ri
            if not self.repair(raw, ri, errs):
                return None
        return None

    def find(self, raw, path):
        for s in path:
            raw = raw[s] if not isinstance(s, str) or s in raw else raw[
                [k for k in raw if k.split(":")[-1] == s.split(":")[-1]][0]]
        return raw

    def drop(self, raw, path):
        """Delete the node at path; True on success."""
        if not path:
            return False
        try:
            par = self.find(raw, path[:-1])
            k = path[-1]
            if isinstance(k, str) and k not in par:
                k = [x for x in par if x.split(":")[-1] == k.split(":")[-1]][0]
            del par[k]
            if isinstance(par, list) and not par:
                self.drop(raw, path[:-1])
            return True
        except (KeyError, IndexError, TypeError):
            return False

    def repair(self, raw, ri, errs):
        rng = self.rng
        done = False
        for e in sorted(errs, key=lambda e: -len(e[1]))[:1]:
            kind, path = e[0], e[1]
            if kind == "not-allowed":
                done |= self.drop(raw, path + (e[2],))
            elif kind == "missing":
                c = e[2]
                if rng.random() < 0.75 and c is not None:
                    try:
                        par = self.find(raw, path)
                        if c.kw == "choice":
                            self.members(rng.choice(c.children), par)
                        else:
                            par[c.iname()] = self.node(c)
                        done = True
                        continue
                    except (NoValue, KeyError, IndexError):
                        pass
                done |= self.drop(raw, path)
            elif kind == "leafref":
                if rng.random() < 0.85 and self.fix_ref(raw, ri, path):
                    done = True
                else:
                    done |= self.drop(raw, path)
            elif kind in ("too-few", "dup-value", "dup-key", "not-unique", "too-many"):
                if kind in ("too-few",):
                    done |= self.drop(raw, path)
                else:
                    try:
                        done |= self.drop(raw, path + (len(self.find(raw, path)) - 1,))
                    except (KeyError, IndexError):
                        done |= self.drop(raw, path)
            else:
                done |= self.drop(raw, path)
        return done

    def fix_ref(self, raw, ri, path):
        n = locate(ri, path)
        if n is None or n.node.type.base != "leafref":
            return False
        t = n.node.type
        env = rdata.env_for(t.pathctx, n.node.ns, self.lib)
        ts = rdata.rxpath.evaluate(t.path, n, env)
        ts = [x for x in ts if x.val is not None]
        if not ts:
            return False
        x = self.rng.choice(ts)
        try:
            par = self.find(raw, path[:-1])
            k = path[-1]
            if isinstance(k, str) and k not in par:
                k = [y for y in par if y.split(":")[-1] == k.split(":")[-1]][0]
            par[k] = to_json(*x.val)
            return True
        except (KeyError, IndexError):
            return False


def gen_any(rng):
    """Content of an anydata node."""
    def val(d):
        r = rng.random()
        if d and r < 0.2:
            return {rng.choice(["x", "q:y", "m-a:z"]) + str(i): val(d - 1) for i in range(rng.randint(0, 2))}
        if d and r < 0.35:
            return [val(d - 1) for _ in range(rng.randint(0, 3))]
        return rng.choice([1, 0, -1.5, True, False, None, "x", "", "-7", "null", "caf\u00e9 <&>"])

    res = {}
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        nm = f"m-a:foo{i}"
        res[nm] = val(2)
        if rng.random() < 0.2:
            if isinstance(res[nm], dict):
                res[nm]["@"] = {"m-a:an": val(0)}
            else:
                res["@" + nm] = {"m-a:an": val(0)}
    return res


def locate(ri, path):
    """RI at an instance path (as made by RI.path)."""
    i = 0
    path = list(path)
    while i < len(path):
        nm = path[i]
        i += 1
        ks = [k for k in ri.kids if k.node.iname() == nm]
        if not ks:
            return None
        if i < len(path) and isinstance(path[i], int):
            ks = [k for k in ks if k.key == path[i]]
            i += 1
            if not ks:
                return None
        ri = ks[0]
    return ri


# -- mutations ------------------------------------------------------------

def slots(raw, node, out, path=()):
    """All (container object, key, schema node, path) places of a document."""
    for name in list(raw):
        p, s, loc = name.partition(":")
        ns, ln = (p, loc) if s else (node.ns, p)
        c = node.dchild(ns, ln)
        if c is None:
            continue
        out.append((raw, name, c, path + (name,), node))
        v = raw[name]
        if c.kw == "container":
            slots(v, c, out, path + (name,))
        elif c.kw == "list":
            for i, e in enumerate(v):
                slots(e, c, out, path + (name, i))
    return out


def objs(raw, node, out):
    out.append((raw, node))
    for name, v in raw.items():
        p, s, loc = name.partition(":")
        ns, ln = (p, loc) if s else (node.ns, p)
        c = node.dchild(ns, ln)
        if c is None:
            continue
        if c.kw == "container":
            objs(v, c, out)
        elif c.kw == "list":
            for e in v:
                objs(e, c, out)
    return out


def mutate(raw, root, rng, dg):
    """One random mutation on a deep copy; returns (raw, description)."""
    raw = copy.deepcopy(raw)
    sl = slots(raw, root, [])
    ob = objs(raw, root, [])
    for _ in range(20):
        k = rng.choice(["del", "del", "badval", "badval", "newval", "newval", "unknown",
                        "dupentry", "addentry", "addmember", "addmember", "dupval",
                        "dropkey", "permute", "dupkey", "copyval", "empty", "wrongtype",
                        "trunc", "state"])
        if k in ("unknown",):
            o, n = rng.choice(ob)
            nm = rng.choice(["nosuch", "m-a:nosuch", "m-b:nosuch", "zzz:x", "m-t:x", "",
                             ":", "a:b:c"])
            o[nm] = rng.choice([1, "x", {}, [], None])
            return raw, ("unknown", nm)
        if k == "addmember":
            o, n = rng.choice(ob)
            cs = [c for c in n.dchildren() if c.iname() not in o]
            if not cs:
                continue
            c = rng.choice(cs)
            try:
                o[c.iname()] = dg.node(c)
            except NoValue:
                continue
            return raw, ("addmember", c.iname())
        if not sl:
            continue
        o, nm, c, path, par = rng.choice(sl)
        v = o[nm]
        try:
            if k == "del":
                del o[nm]
                return raw, ("del", path)
            if k == "badval" and c.kw == "leaf":
                o[nm] = bad_value(c.type, rng)
                return raw, ("badval", path, o[nm])
            if k == "badval" and c.kw == "leaf-list" and v:
                i = rng.randrange(len(v))
                v[i] = bad_value(c.type, rng)
                return raw, ("badval", path, i)
            if k == "newval" and c.kw == "leaf":
                o[nm] = gen_value(c.type, rng)
                return raw, ("newval", path)
            if k == "newval" and c.kw == "leaf-list" and v:
                v[rng.randrange(len(v))] = gen_value(c.type, rng)
                return raw, ("newval", path)
            if c.kw in ("list", "leaf-list"):
                if k in ("dupentry", "dupval") and v:
                    i = rng.randrange(len(v))
                    v.insert(rng.randint(0, len(v)), copy.deepcopy(v[i]))
                    return raw, ("dupentry", path)
                if k == "addentry":
                    x = dg.node(c)
                    v.extend(x)
                    return raw, ("addentry", path)
                if k == "trunc" and v:
                    del v[rng.randrange(len(v))]
                    return raw, ("trunc", path)
                if k == "empty":
                    o[nm] = []
                    return raw, ("empty", path)
                if k == "permute" and len(v) > 1:
                    rng.shuffle(v)
                    return raw, ("permute", path)
            if k == "dropkey" and c.kw == "list" and v and c.keys:
                e = rng.choice(v)
                kn = c.dchild(*rng.choice(c.keys)).iname()
                if kn in e:
                    del e[kn]
                    return raw, ("dropkey", path, kn)
            if k == "dupkey" and c.kw == "list" and len(v) > 1 and c.keys:
                a, b = rng.sample(range(len(v)), 2)
                for kk in c.keys:
                    kn = c.dchild(*kk).iname()
                    v[a][kn] = v[b][kn]
                return raw, ("dupkey", path)
            if k == "copyval" and c.kw == "list" and len(v) > 1:
                a, b = rng.sample(range(len(v)), 2)
                ms = [m for m in v[b] if c.dchild(c.ns, m) is not None and
                      c.dchild(c.ns, m).kw == "leaf"]
                if ms:
                    m = rng.choice(ms)
                    v[a][m] = v[b][m]
                    return raw, ("copyval", path, m)
            if k == "wrongtype" and c.kw not in ("anydata", "anyxml"):
                o[nm] = rng.choice([None, 1, "x", [], {}, [1], [{}], True, [None]])
                return raw, ("wrongtype", path, o[nm])
        except (NoValue, KeyError):
            continue
    return raw, None
