"""Type laboratory: random YANG types with deep chains of restrictions, their
reference (RType) and hostile sample values.

Two modules: m-a (typedefs, identities, features) and m-b, which imports m-a and has
one leaf per type.  A type (TY) knows the text of a "type" statement that
denotes it in either module, its reference, and the restrictions with their declared
error tags and messages."""
import base64
import json
import os
from decimal import Decimal
from . import xre
from .rtypes import INTS, RType, TypeErr
from .yst import S, render

NAMES = ["red", "green", "a", "b", "one two", "x.y", "10", "true", "-1", "null", "b0", "b1", "up", "é", "a/b", "m-a:id1"]
BITS = ["b0", "b1", "b2", "up", "down", "x.y", "z_", "flag", "-"[:0] or "f-1"]


class IdLib:
    def __init__(self):
        self.bases = {}          # (mod, name) -> [(mod, name)]
        self.identities = self.bases

    def derived(self, i, base):
        if i not in self.bases:
            return False
        return any(b == base or self.derived(b, base) for b in self.bases[i])


class TY:
    def __init__(self, rt, build):
        self.rt = rt
        self.build = build       # module letter -> type statement
        self.levels = []         # (kind, accepts(value), tag, msg)
        self.leafmod = None
        self.default = None      # (text, reference value) of the typedef chain

    def copy(self):
        n = TY(RType(self.rt.base), self.build)
        n.rt.__dict__.update(self.rt.__dict__)
        n.rt.patterns = list(self.rt.patterns)
        n.levels = list(self.levels)
        return n


class Lab:
    def __init__(self, rng, leaves=14, iid=True):
        self.rng = rng
        self.ids = IdLib()
        self.feats = {"f0": True, "f1": False}
        self.defs = {"a": [], "b": []}
        self.sts = {"a": [], "b": []}
        self.n = 0
        self.iid = iid
        self.leaves = []         # (name, TY)
        self.identities()
        for _ in range(leaves):
            self.leaf()

    def nm(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # -- identities ---------------------------------------------------------
    def identities(self):
        rng = self.rng
        for i in range(rng.randint(3, 9)):
            mod = rng.choice("ab")
            # m-a does not import m-b
            pool = [x for x in self.ids.bases if mod == "b" or x[0] == "m-a"]
            bs = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2])))
            name = rng.choice(["id", "red", "true", "x"]) + str(i)
            off = rng.random() < 0.1
            st = S("identity", name, *[S("base", self.pn(mod, b)) for b in bs])
            if off:
                st.add(S("if-feature", "f1" if mod == "a" else "a:f1"))
            self.sts[mod].append(st)
            if not off:
                self.ids.bases[("m-" + mod, name)] = bs

    def pn(self, mod, ident):
        m, n = ident
        if m == "m-" + mod:
            return n if self.rng.random() < 0.5 else f"{mod}:{n}"
        return f"{m[-1]}:{n}"

    # -- types ---------------------------------------------------------------
    def errinfo(self, st):
        """Random error-message and error-app-tag."""
        tag = msg = None
        if self.rng.random() < 0.35:
            msg = self.rng.choice(["no good", "bad, really", "špatně", "x: y"]) + str(self.rng.randint(0, 99))
            st.add(S("error-message", msg))
        if self.rng.random() < 0.35:
            tag = f"my-tag-{self.rng.randint(0, 99)}"
            st.add(S("error-app-tag", tag))
        return tag, msg

    def intervals(self, cur, show, kmax=3):
        """Random sub-intervals of the intervals `cur` (pairs of integers) and their text."""
        rng = self.rng
        iv = []
        for lo, hi in cur:
            if rng.random() < 0.25 and len(cur) > 1:
                continue
            k = rng.choice([1, 1, 2, 3][:kmax + 1])
            if hi - lo < 2 * k:
                k = 1
            r = rng.random()
            if r < 0.5:
                a, b = max(lo, -30 if lo < -30 < hi else lo), min(hi, 90 if lo < 90 < hi else hi)
            elif r < 0.7:
                a, b = lo, min(hi, lo + 20)
            else:
                a, b = max(lo, hi - 20), hi
            span = b - a + 1
            pts = sorted(rng.sample(range(span), 2 * k)) if span >= 2 * k else [0, span - 1]
            for i in range(len(pts) // 2):
                x, y = a + pts[2 * i], a + pts[2 * i + 1]
                if rng.random() < 0.2:
                    y = x
                iv.append((x, y))
        if not iv:
            iv = [cur[0]]
        if rng.random() < 0.25:
            iv[0] = (cur[0][0], iv[0][1]) if iv[0][1] <= cur[0][1] else iv[0]
        if rng.random() < 0.25:
            iv[-1] = (iv[-1][0], cur[-1][1]) if iv[-1][0] >= cur[-1][0] else iv[-1]
        parts = []
        sep, dots = rng.choice([" | ", "|", "\n  | "]), rng.choice(["..", " .. ", ".. "])
        for i, (x, y) in enumerate(iv):
            xs = "min" if i == 0 and x == cur[0][0] and rng.random() < 0.6 else show(x)
            ys = "max" if i == len(iv) - 1 and y == cur[-1][1] and rng.random() < 0.6 else show(y)
            parts.append(xs if x == y and rng.random() < 0.8 else xs + dots + ys)
        return iv, sep.join(parts)

    def restrict(self, ty, st, mod):
        """Add restrictions to a type statement; `ty` is changed in place."""
        rng, rt, b = self.rng, ty.rt, ty.rt.base
        if b in INTS:
            if rng.random() < 0.7:
                iv, txt = self.intervals(rt.ranges or [INTS[b]], str)
                r = S("range", txt)
                rt.ranges = iv
                tag, msg = self.errinfo(r)
                ty.levels.append(("range", lambda v, iv=iv: any(lo <= v[1] <= hi for lo, hi in iv), tag, msg))
                st.add(r)
        elif b == "decimal64":
            if rng.random() < 0.7:
                q = 10 ** rt.fd

                def show(n):
                    s = str(abs(n)).rjust(rt.fd + 1, "0")
                    t = f"{s[:-rt.fd]}.{s[-rt.fd:]}"
                    if rng.random() < 0.5:
                        t = t.rstrip("0")
                        if t.endswith("."):
                            t = t[:-1] if rng.random() < 0.5 else t + "0"
                    return ("-" if n < 0 else "") + t
                cur = [(int(lo * q), int(hi * q)) for lo, hi in rt.ranges] if rt.ranges else [(-2**63, 2**63 - 1)]
                iv, txt = self.intervals(cur, show)
                r = S("range", txt)
                rt.ranges = [(Decimal(lo).scaleb(-rt.fd), Decimal(hi).scaleb(-rt.fd)) for lo, hi in iv]
                tag, msg = self.errinfo(r)
                ty.levels.append(("range", lambda v, iv=rt.ranges: any(lo <= v[1] <= hi for lo, hi in iv), tag, msg))
                st.add(r)
        elif b in ("string", "binary"):
            if b == "string":
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    p = xre.pattern(rng)
                    inv = rng.random() < 0.25
                    r = S("pattern", p.text)
                    if inv:
                        r.add(S("modifier", "invert-match"))
                    rt.patterns.append((p, inv))
                    tag, msg = self.errinfo(r)
                    ty.levels.append(("pattern", lambda v, p=p, inv=inv: p.match(v[1]) != inv, tag, msg))
                    st.add(r)
            if rng.random() < 0.45:
                cur = rt.lengths or [(0, 2**64 - 1)]
                if rng.random() < 0.8:
                    small = [(lo, min(hi, lo + 12)) for lo, hi in cur]
                    iv, txt = self.intervals(small, str)
                    if "max" in txt and small[-1] != cur[-1]:
                        iv[-1] = (iv[-1][0], cur[-1][1])
                    if iv[-1][0] == iv[-1][1] and txt.rstrip().endswith("max"):
                        iv[-1] = (iv[-1][0], cur[-1][1])
                else:
                    iv, txt = cur, "min..max"
                    if len(cur) > 1:
                        iv = [(cur[0][0], cur[0][1])]
                        txt = f"min..{cur[0][1]}"
                # a single "max" means the maximum itself
                if txt.split("|")[-1].strip() == "max":
                    iv[-1] = (cur[-1][1], cur[-1][1])
                r = S("length", txt)
                rt.lengths = iv
                tag, msg = self.errinfo(r)
                ty.levels.append(("length", lambda v, iv=iv: any(lo <= len(v[1]) <= hi for lo, hi in iv), tag, msg))
                st.add(r)
        elif b == "enumeration":
            if len(rt.enums) > 1 and rng.random() < 0.5:
                keep = rng.sample(sorted(rt.enums), rng.randint(1, len(rt.enums)))
                left = []
                for k in keep:
                    e = S("enum", k)
                    if rng.random() < 0.3:
                        e.add(S("value", str(rt.enums[k])))
                    st.add(e)
                    if self.iff(mod, e) or (k == keep[-1] and not left and not e.subs.remove(e.subs[-1])):
                        left.append(k)
                rt.enums = {k: rt.enums[k] for k in left}
        elif b == "bits":
            if len(rt.bits) > 1 and rng.random() < 0.5:
                keep = rng.sample(sorted(rt.bits), rng.randint(1, len(rt.bits)))
                left = []
                for k in keep:
                    e = S("bit", k)
                    if rng.random() < 0.3:
                        e.add(S("position", str(rt.bits[k])))
                    st.add(e)
                    if self.iff(mod, e) or (k == keep[-1] and not left and not e.subs.remove(e.subs[-1])):
                        left.append(k)
                rt.bits = {k: rt.bits[k] for k in left}

    def iff(self, mod, st):
        """if-feature with probability 0.15; returns whether the statement is in effect."""
        if self.rng.random() < 0.15:
            f = self.rng.choice(["f0", "f1"])
            st.add(S("if-feature", f if mod == "a" else "a:" + f))
            return self.feats[f]
        return True

    def base_type(self, mod, union=0):
        """A builtin type statement in module `mod`."""
        rng = self.rng
        pool = sorted(INTS) + ["decimal64"] * 3 + ["string"] * 5 + ["boolean", "enumeration", "enumeration", "bits", "bits",
                                                                   "binary", "binary", "identityref", "identityref", "empty"]
        if union < 2:
            pool += ["union"] * (4 if union == 0 else 2)
        if self.iid and not union:
            pool.append("instance-identifier")
        b = rng.choice(pool)
        rt = RType(b)
        rt.lib = self.ids
        st = S("type", b)
        if b == "decimal64":
            rt.fd = rng.choice([1, 2, 3, 6, 17, 18])
            st.add(S("fraction-digits", str(rt.fd)))
        elif b in ("enumeration", "bits"):
            isb = b == "bits"
            names = rng.sample(BITS if isb else NAMES, rng.randint(1, 5))
            vals, used, nxt = {}, set(), 0
            for n in names:
                e = S("bit" if isb else "enum", n)
                if rng.random() < 0.4:
                    v = rng.choice([x for x in range(0 if isb else -5, 24) if x not in used])
                    e.add(S("position" if isb else "value", str(v)))
                else:
                    v = max(used) + 1 if used else 0
                used.add(v)
                st.add(e)
                if self.iff(mod, e) or (n == names[-1] and not vals and not e.subs.remove(e.subs[-1])):
                    vals[n] = v
            if isb:
                rt.bits = vals
            else:
                rt.enums = vals
        elif b == "identityref":
            pool = sorted(x for x in self.ids.bases if mod == "b" or x[0] == "m-a")
            if not pool:
                return self.base_type(mod, union)
            rt.bases = rng.sample(pool, min(len(pool), rng.choice([1, 1, 1, 2])))
            for x in rt.bases:
                st.add(S("base", self.pn(mod, x)))
        elif b == "union":
            rt.members = []
            for _ in range(rng.randint(1, 4)):
                t = self.type(mod, union + 1)
                rt.members.append(t.rt)
                st.add(t.build(mod))
        ty = TY(rt, None)
        if b in ("enumeration", "bits"):
            pass
        elif rng.random() < 0.75:
            self.restrict(ty, st, mod)
        ty.build = lambda m, st=st: st.copy()
        return ty

    def type(self, mod, union=0):
        """A type usable in module `mod`."""
        rng = self.rng
        avail = self.defs["a"] + (self.defs["b"] if mod == "b" else [])
        if union:
            avail = [d for d in avail if d[1].rt.base not in ("instance-identifier", "union")]
        r = rng.random()
        if avail and r < 0.45:
            name, t0, dmod = rng.choice(avail)
            ty = t0.copy()
            st = S("type", name if dmod == mod and rng.random() < 0.5 else f"{dmod}:{name}")
            if rng.random() < 0.6:
                self.restrict(ty, st, mod)
            ty.build = lambda m, st=st: st.copy()
            return ty
        return self.base_type(mod, union)

    def typedef(self):
        rng = self.rng
        mod = rng.choice("ab")
        ty = self.type(mod)
        n = self.nm("t")
        st = S("typedef", n, ty.build(mod))
        self.sts[mod].append(st)
        self.defs[mod].append((n, ty, mod))

    def leaf(self):
        for _ in range(self.rng.choice([0, 1, 1, 2])):
            self.typedef()
        ty = self.type("b")
        n = self.nm("l")
        self.sts["b"].append(S("leaf", n, ty.build("b")))
        self.leaves.append((n, ty))
        if self.rng.random() < 0.1 and ty.rt.base != "instance-identifier":
            rn = self.nm("l")
            r = RType("leafref")
            r.target = ty.rt
            lr = TY(r, None)
            lr.levels = ty.levels
            self.sts["b"].append(S("leaf", rn, S("type", "leafref", S("path", f"/b:{n}"), S("require-instance", "false"))))
            self.leaves.append((rn, lr))

    # -- the model -------------------------------------------------------------
    def modules(self):
        a = S("module", "m-a", S("yang-version", "1.1"), S("namespace", "urn:a"), S("prefix", "a"),
              *[S("feature", f) for f in self.feats], *self.sts["a"])
        b = S("module", "m-b", S("yang-version", "1.1"), S("namespace", "urn:b"), S("prefix", "b"),
              S("import", "m-a", S("prefix", "a")), *self.sts["b"])
        return a, b

    def text(self):
        return "\n".join(render(x) for x in self.modules())

    def build(self, d):
        from yangson import DataModel
        a, b = self.modules()
        for m in (a, b):
            with open(os.path.join(d, f"{m.arg}.yang"), "w", encoding="utf-8") as f:
                f.write(render(m))
        yl = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
            {"name": "m-a", "revision": "", "namespace": "urn:a", "conformance-type": "implement",
             "feature": [f for f in self.feats if self.feats[f]]},
            {"name": "m-b", "revision": "", "namespace": "urn:b", "conformance-type": "implement"}]}}
        return DataModel(json.dumps(yl), (d,))


# -- values -------------------------------------------------------------------

HOSTILE = [None, True, False, 0, 1, -1, 7, 1.0, 0.0, -0.0, 1.5, 1e308, float("inf"), float("-inf"), float("nan"), 10**30, -10**30,
           10**4400, "", " ", "0", "-0", "+0", "00", "1", "+1", "-1", "1.0", "1.", ".5", "-.5", "+1.50", "1e1", "0x1F", "010", " 1", "1 ",
           "1\n", "\n", "١", "1_0", "NaN", "Infinity", "true", "false", "True", "null", "[null]", "[]", [], [None], [[None]],
           [None, None], [1], [""], {}, {"a": 1}, {"@": {}}, "a:b", ":", "a:", ":a", "m-a:", "m-b:x", "a:b:c", "/", "/m-b:l1", "//",
           "/m-b:l1[.='x']", "m-b:l1", "\x00", "\ud800", "\U0001f600", "é" * 50, "x" * 300, "QQ==", "QR==", "Q===", "====", "QQ",
           "QQ==QQ==", "Q Q==", "QQ==\n", "-_-_", "9" * 30, "9" * 5000, "1." + "0" * 40, "1." + "0" * 17 + "1", "b0", "b0 b1", "b1 b0",
           "b0  b1", " b0", "b0 b0", "b0,b1", "red", "Red", "red ", " red", "one two", "one  two"]


def lexical(t, v, rng):
    """A JSON value for the reference value v, not necessarily canonical."""
    b = t.base
    if b in INTS:
        if not b.endswith("64"):
            return v[1]
        s = str(abs(v[1]))
        return ("-" if v[1] < 0 else rng.choice(["", "", "+"])) + rng.choice(["", "", "0", "000"]) + s
    if b == "decimal64":
        s = format(v[1], "f")
        r = rng.random()
        if "." in s and r < 0.4:
            s = s.rstrip("0").rstrip(".")
        elif r < 0.7:
            s += ("" if "." in s else ".") + "0" * rng.randint(1, 3)
        if rng.random() < 0.1:
            s = "-" + s if s[0] not in "-+" and v[1] == 0 else "+" + s if s[0] != "-" else s
        return s
    if b == "bits":
        ns = list(v[1])
        rng.shuffle(ns)
        return (" " if rng.random() < 0.9 else "  ").join(ns)
    if b == "binary":
        return base64.b64encode(v[1]).decode()
    if b == "identityref":
        m, n = v[1]
        return n if m == "m-b" and rng.random() < 0.5 else f"{m}:{n}"
    if b == "empty":
        return [None]
    return v[1]


def guess(t, rng):
    """A reference value of the base type of t, near the limits of its restrictions."""
    b = t.base
    if b in INTS:
        c = [0, 1, -1, rng.randint(-200, 300), *INTS[b], INTS[b][0] - 1, INTS[b][1] + 1]
        for lo, hi in t.ranges or []:
            c += [lo, hi, lo - 1, hi + 1, (lo + hi) // 2] * 2
        return ("int", rng.choice(c))
    if b == "decimal64":
        e = Decimal(1).scaleb(-t.fd)
        lim = Decimal(2**63).scaleb(-t.fd)
        c = [Decimal(0), e, -e, Decimal(1), -lim, lim, lim - e, -lim - e, Decimal(rng.randint(-300, 300)).scaleb(-rng.randint(0, min(2, t.fd)))]
        for lo, hi in t.ranges or []:
            c += [lo, hi, lo - e, hi + e, lo + e, hi - e] * 2
        return ("dec", rng.choice(c))
    if b == "string":
        if t.patterns and rng.random() < 0.8:
            p, inv = rng.choice(t.patterns)
            s = p.sample(rng)
            if inv or rng.random() < 0.45:
                s = xre.near(rng, s)
        else:
            s = "".join(rng.choice(xre.ALPHA) for _ in range(rng.randint(0, 4)))
        if t.lengths and rng.random() < (0.3 if t.patterns else 0.9):
            lo, hi = rng.choice(t.lengths)
            n = rng.choice([lo, lo - 1, min(hi, lo + 20), min(hi, 40 if t.patterns else 400) + 1])
            s = (s or "a") * (max(n, 0) // max(1, len(s)) + 1)
            s = s[:max(n, 0)]
        return ("str", s)
    if b == "binary":
        n = rng.randint(0, 6)
        if t.lengths:
            lo, hi = rng.choice(t.lengths)
            n = max(0, rng.choice([lo, lo - 1, min(hi, lo + 9), min(hi, 300) + 1]))
        return ("bin", bytes(rng.randrange(256) for _ in range(min(n, 400))))
    if b == "enumeration":
        return ("enum", rng.choice(NAMES + list(t.enums) * 4))
    if b == "bits":
        pool = list(t.bits) * 3 + BITS if rng.random() < 0.4 else list(t.bits)
        ns = []
        for n in pool:
            if rng.random() < 0.4 and (n not in ns or rng.random() < 0.05):
                ns.append(n)
        return ("bits", tuple(ns))
    if b == "identityref":
        good = [x for x in sorted(t.lib.bases) if all(t.lib.derived(x, y) for y in t.bases)]
        if good and rng.random() < 0.5:
            return ("id", rng.choice(good))
        return ("id", rng.choice(sorted(t.lib.bases) + [("m-a", "nosuch"), ("nosuch", "id0")]))
    if b == "boolean":
        return ("bool", rng.random() < 0.5)
    if b == "empty":
        return ("empty",)
    if b == "instance-identifier":
        return ("iid", rng.choice(sorted(IID_OK | IID_BAD)))
    raise AssertionError(b)


IID_BAD = {"/l1", "m-b:l1", "/m-b:l1/", "/m-b:l1[", "/m-b:l[k='1]", "/m-b:l[k=1]", "/1:x", "/m-b:l[0]", "/m-b:l[-1]",
           "/m-b:l[.='v']x", "/m-b:l[k='1'", "/m-b:", "/:x", "/m-b:x y", "//m-b:x", "/m-b:l[k='1' j='2']", "/m-b:l[]", "/m-b:l[.=]",
           "/m-b:l['a']", "/*", "/m-b:l[k!='1']", "/m-b:..", "/m-b:l[1][", " /m-b:l1", "/m-b:l1 "}
IID_OK = {"/m-b:l1", "/m-a:c/d", "/m-b:l[k='1'][j=\"a'b\"]/x", "/m-b:ll[.='v']", "/m-b:l[3]", "/m-b:l[ k = '1' ]", "/m-b:l[k='/[x]']/y/m-a:z", "/m-b:l[ 12 ]",
          "/m-b:ll[ . = \"\" ]"}


def patterned(t):
    t = t.effective()
    return bool(t.patterns) or t.base == "union" and any(patterned(m) for m in t.members)


def raw_value(ty, rng):
    """A JSON value to try on the type."""
    t = ty.rt.effective()
    r = rng.random()
    if r < 0.2:
        x = rng.choice(HOSTILE)
        # long strings make the matching of some patterns slow
        return x[:40] if isinstance(x, str) and len(x) > 40 and patterned(t) else x
    while t.base == "union":
        t = rng.choice(t.members).effective()
    v = guess(t, rng)
    raw = lexical(t, v, rng)
    if r < 0.25 and isinstance(raw, str):
        raw = xre.near(rng, raw)
    elif r < 0.28:
        raw = str(raw) if not isinstance(raw, str) else rng.choice([[raw], {"x": raw}, raw.encode().hex()])
    return raw
