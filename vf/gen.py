"""Random YANG data models (statement trees + YANG library data)."""
import json
import os
from decimal import Decimal
from .yst import S, render
from .rcomp import Lib, Mod
from .rtypes import INTS, PATTERNS, TypeErr
from .rdata import leaf_defaults

REV = "2024-01-01"
STR = ["a", "b", "c", "ab", "x", "x9x", "hello", "12", "a b", "-", "é", "1.5", "true"]


class TI:
    """A generated type: statement, valid sample texts, base name."""

    def __init__(self, st, samples, base, **kw):
        self.st = st
        self.samples = samples
        self.base = base
        self.__dict__.update(kw)

    def stmt(self):
        return self.st.copy()


class Profile:
    def __init__(self, **kw):
        self.depth = 3
        self.width = 4
        self.when = 0.12
        self.must = 0.12
        self.iffeature = 0.08
        self.choice = 0.12
        self.uses = 0.12
        self.state = 0.1
        self.default = 0.35
        self.mandatory = 0.2
        self.unique = 0.2
        self.keyless = 0.3
        self.typedefs = 0.3
        self.unions = 0.08
        self.leafref = 0.07
        self.anydata = 0.02
        self.augment = 3
        self.chain = 0.25        # augments of augmented nodes
        self.deviations = 0
        self.rpc = 0.0
        self.rich = False        # import-only modules with data, augments in submodules ...
        self.ops = 0.0           # actions and notifications in data nodes
        self.opsub = 0.0         # operations in submodules and groupings
        self.submodule = 0.4
        self.presence = 0.3
        self.extra = True        # units, description, status, reference
        self.xml = False         # restrict to what has an XML encoding
        self.layout = False      # randomised statement layout
        self.identityref = True
        self.empty = True
        self.binary = True
        self.bits = True
        self.statusp = 0.0
        self.maxels = True
        self.namesakes = 0.1     # choices and cases named like data nodes elsewhere
        self.augtmod = True
        self.__dict__.update(kw)


class ModelGen:
    def __init__(self, rng, prof=None):
        self.rng = rng
        self.p = prof or Profile()
        self.n = 0
        self.ident = []          # [(modname, name, prefixmap)]
        self.feats = {}          # module -> [features]
        self.typedefs = {}       # module -> [(name, TI)]
        self.groupings = {}      # module -> [(name, info)]
        self.texts = []
        self.casenames = []
        self.kwnames = ["and-1", "or.x", "not-a", "div_2", "mod", "text-x",
                        "nodes", "min", "max", "key", "count", "current",
                        "data", "name", "id", "value", "enabled", "_u"]

    # -- helpers -----------------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def name(self, pre="n"):
        self.n += 1
        if self.chance(0.08) and self.kwnames:
            k = self.rng.randrange(len(self.kwnames))
            return self.kwnames.pop(k)
        return f"{pre}{self.n}"

    # -- types -------------------------------------------------------------
    def gen_type(self, c, depth=0, key=False, allow_union=True, base=None, plain=False):
        """c: Scope (module under construction)."""
        r = self.rng
        if base is None and not plain and self.chance(self.p.typedefs) and depth == 0:
            ti = self.derived_type(c, key)
            if ti is not None:
                return ti
        pool = ["int8", "int16", "int32", "int64", "uint8", "uint16",
                "uint32", "uint64", "decimal64", "string", "string", "string",
                "boolean", "enumeration"]
        if self.p.bits:
            pool.append("bits")
        if self.p.binary:
            pool.append("binary")
        if self.p.identityref and self.ident:
            pool.append("identityref")
        if not key and self.p.empty:
            pool.append("empty")
        if base is None:
            if allow_union and self.chance(self.p.unions) and depth == 0:
                base = "union"
            else:
                base = r.choice(pool)
        return getattr(self, "t_" + base.replace("-", "_"),
                       self.t_int)(c, base, depth)

    def t_int(self, c, base, depth):
        lo, hi = INTS[base]
        st = S("type", base)
        if self.chance(0.5):
            iv, txt = self.gen_intervals(max(lo, -20), min(hi, 60), lo, hi)
            st.add(S("range", txt))
            sm = sorted({str(x) for a, b in iv for x in (a, b, (a + b) // 2)})
            return TI(st, sm, base, iv=iv)
        sm = [str(x) for x in (0, 1, 2, 5, hi, lo, 10)]
        return TI(st, sm, base, iv=[(lo, hi)])

    def gen_intervals(self, a, b, lo, hi):
        r = self.rng
        k = r.choice([1, 1, 2, 3])
        pts = sorted(r.sample(range(a, b + 1), 2 * k))
        iv = []
        for i in range(k):
            x, y = pts[2 * i], pts[2 * i + 1]
            if r.random() < 0.25:
                y = x
            iv.append((x, y))
        if r.random() < 0.15:
            iv[0] = (lo, iv[0][1])
        if r.random() < 0.15:
            iv[-1] = (iv[-1][0], hi)
        sep = r.choice([" | ", "|", "  |\n "])
        dots = r.choice(["..", " .. "])
        parts = []
        for i, (x, y) in enumerate(iv):
            xs = "min" if x == lo and (i == 0) and r.random() < 0.7 else str(x)
            ys = "max" if y == hi and i == len(iv) - 1 and r.random() < 0.7 else str(y)
            parts.append(xs if x == y else xs + dots + ys)
        return iv, sep.join(parts)

    def t_decimal64(self, c, base, depth):
        r = self.rng
        fd = r.choice([1, 2, 2, 3, 6, 18])
        if depth:
            fd = 18      # rounding of further digits (pinned by tests) must not matter
        st = S("type", "decimal64", S("fraction-digits", str(fd)))
        lim = Decimal(2**63) / (Decimal(10) ** fd)
        cand = [x for x in ("0", "1.5", "-0.5", "2", "3.25", "0.1", "-7.125",
                            "0.000001", "9.2")
                if abs(Decimal(x)) < lim and
                -Decimal(x).normalize().as_tuple().exponent <= fd]
        if self.chance(0.4):
            lo, hi = r.choice([("0", "5"), ("-1.5", "3.5"), ("1", "max"), ("min", "0")])
            st.add(S("range", f"{lo}..{hi}"))
            l = -lim if lo == "min" else Decimal(lo)
            h = lim if hi == "max" else Decimal(hi)
            cand = [x for x in cand if l <= Decimal(x) <= h]
        return TI(st, cand or ["0"], base, fd=fd)

    def t_string(self, c, base, depth):
        r = self.rng
        st = S("type", "string")
        sm = list(STR)
        if self.chance(0.45):
            p = r.choice(sorted(PATTERNS))
            _, good, bad = PATTERNS[p]
            if self.chance(0.15):
                pst = S("pattern", p, S("modifier", "invert-match"))
                sm = [b for b in bad if "\n" not in b] or None
                if sm is None:
                    pst = S("pattern", p)
                    sm = good
            else:
                pst = S("pattern", p)
                sm = list(good)
            if self.chance(0.2):
                pst.add(S("error-message", "bad pattern"))
                pst.add(S("error-app-tag", "my-pattern"))
            st.add(pst)
        if self.chance(0.35):
            n = len(r.choice(sm))
            lo, hi = max(0, n - r.randint(0, 2)), n + r.randint(0, 3)
            txt = r.choice([f"{lo}..{hi}", f"{lo} .. {hi}", f"min..{hi}", f"{lo}..max"])
            if lo == hi:
                txt = str(lo)
            if txt.startswith("min"):
                lo = 0
            if txt.endswith("max"):
                hi = 10**9
            if r.random() < 0.2 and hi < 100:
                txt += f"|{hi + 4}..{hi + 6}"
            st.add(S("length", txt))
            sm = [x for x in sm if lo <= len(x) <= hi]
        return TI(st, sm, base)

    def t_boolean(self, c, base, depth):
        return TI(S("type", "boolean"), ["true", "false"], base)

    def t_empty(self, c, base, depth):
        return TI(S("type", "empty"), [], base)

    def t_binary(self, c, base, depth):
        st = S("type", "binary")
        sm = ["AAEC", "YQ==", "YWI=", "+/+/", "YWJjZA=="]
        if self.chance(0.3):
            st.add(S("length", self.rng.choice(["1..3", "3", "2..max", "1|3..4"])))
            sm = ["AAEC", "+/+/"]
        return TI(st, sm, base)

    def t_enumeration(self, c, base, depth):
        r = self.rng
        k = r.randint(1, 5)
        names = r.sample(["red", "green", "blue", "a", "b", "one two", "x.y",
                          "10", "true", "on", "off"], k)
        st = S("type", "enumeration")
        used = set()
        nxt = 0
        sm = []
        for n in names:
            e = S("enum", n)
            if self.chance(0.35):
                v = r.choice([x for x in range(-6, 20) if x not in used])
                e.add(S("value", str(v)))
            else:
                v = nxt
            used.add(v)
            nxt = max(used) + 1
            if self.iff(c, e):
                pass
            else:
                sm.append(n)
            st.add(e)
        if not sm:
            for f in st.subs[0].all("if-feature"):
                st.subs[0].subs.remove(f)
            sm = [names[0]]
        return TI(st, sm, base)

    def t_bits(self, c, base, depth):
        r = self.rng
        k = r.randint(1, 5)
        names = r.sample(["b0", "b1", "up", "down", "x.y", "z_", "flag"], k)
        st = S("type", "bits")
        used = set()
        sm = [""]
        for n in names:
            e = S("bit", n)
            if self.chance(0.35):
                v = r.choice([x for x in range(0, 20) if x not in used])
                e.add(S("position", str(v)))
            else:
                v = max(used) + 1 if used else 0
            used.add(v)
            st.add(e)
            sm.append(n)
        return TI(st, sm, base)

    def t_identityref(self, c, base, depth):
        mod, name = self.rng.choice(self.ident)
        st = S("type", "identityref", S("base", c.pn(mod, name)))
        return TI(st, [], base)

    def t_union(self, c, base, depth):
        st = S("type", "union")
        sm = []
        wide = None
        for _ in range(self.rng.randint(2, 3)):
            t = self.gen_type(c, depth + 1, allow_union=False)
            # a 64-bit and a shorter integer type in one union: known finding
            # of C03 (their JSON encodings differ), exercised there
            while "int" in t.base and wide not in (None, t.base.endswith("64")):
                t = self.gen_type(c, depth + 1, allow_union=False)
            if "int" in t.base:
                wide = t.base.endswith("64")
            st.add(t.stmt())
            sm += t.samples
        return TI(st, sm, base)

    def derived_type(self, c, key):
        r = self.rng
        cands = []
        for m in c.visible():
            for n, ti in self.typedefs.get(m, []):
                if key and ti.base == "empty":
                    continue
                if ti.base == "empty" and not self.p.empty:
                    continue
                cands.append((m, n, ti))
        if not cands:
            return None
        m, n, ti = r.choice(cands)
        st = S("type", c.pn(m, n))
        sm = list(ti.samples)
        iv = getattr(ti, "iv", None)
        if iv and self.chance(0.5):
            # restrict: keep a sub-interval
            a, b = r.choice(iv)
            lo, hi = iv[0][0], iv[-1][1]
            x = r.randint(max(a, -10**6), min(b, max(a, -10**6) + 40))
            y = r.randint(x, min(b, x + 30))
            txt = str(x) if x == y else f"{x}..{y}"
            if x == lo and x != y:
                txt = f"min..{y}"
            if y == hi and x != y:
                txt = f"{x}..max"
            st.add(S("range", txt))
            sm = sorted({str(x), str(y), str((x + y) // 2)})
            iv = [(x, y)]
        elif ti.base == "enumeration" and len(ti.samples) > 1 and self.chance(0.4):
            keep = r.sample(ti.samples, r.randint(1, len(ti.samples)))
            for k in keep:
                st.add(S("enum", k))
            sm = keep
        elif ti.base == "bits" and len(ti.samples) > 2 and self.chance(0.4):
            keep = [x for x in ti.samples if x and self.chance(0.6)] or [ti.samples[1]]
            for k in keep:
                st.add(S("bit", k))
            sm = [""] + keep
        elif ti.base == "string" and sm and self.chance(0.4):
            n = len(r.choice(sm))
            if not ti.st.all("length"):
                st.add(S("length", f"{n}..{n + 2}"))
                sm = [x for x in sm if n <= len(x) <= n + 2]
        res = TI(st, sm, ti.base)
        if iv:
            res.iv = iv
        res.tdefault = getattr(ti, "tdefault", None)
        if res.tdefault is not None and res.tdefault not in sm:
            res.baddefault = True
        return res

    def gen_typedef(self, c):
        ti = self.gen_type(c)
        n = self.name("t")
        st = S("typedef", n)
        st.add(ti.stmt())
        t = TI(S("type", n), list(ti.samples), ti.base)
        t.tdefault = None
        if hasattr(ti, "iv"):
            t.iv = ti.iv
        t.st = S("type", n, *[x.copy() for x in ti.st.subs if x.kw == "length"])
        if ti.samples and self.chance(0.25):
            t.tdefault = self.rng.choice(ti.samples)
            st.add(S("default", t.tdefault))
        elif getattr(ti, "tdefault", None) is not None:
            t.tdefault = ti.tdefault
        if getattr(ti, "baddefault", False) and not st.one("default") and ti.samples:
            t.tdefault = self.rng.choice(ti.samples)
            st.add(S("default", t.tdefault))
        if self.chance(0.15):
            st.add(S("units", "u" + str(self.n)))
        self.typedefs.setdefault(c.mod, []).append((n, t))
        return st

    # -- features ----------------------------------------------------------
    def iff(self, c, st, p=None):
        """Maybe add if-feature; returns True if added."""
        if not self.chance(self.p.iffeature if p is None else p):
            return False
        fs = []
        for m in c.visible():
            fs += [(m, f) for f in self.feats.get(m, [])]
        if not fs:
            return False
        st.subs.insert(0, S("if-feature", self.fexpr(c, fs)))
        st.subs[0].parent = st
        return True

    def fexpr(self, c, fs, d=0):
        r = self.rng
        k = r.random()
        if d > 2 or k < 0.45:
            return c.pn(*r.choice(fs))
        if k < 0.6:
            return "not " + self.fatom(c, fs, d + 1)
        op = r.choice([" and ", " or "])
        return self.fterm(c, fs, d + 1) + op + self.fterm(c, fs, d + 1)

    def fterm(self, c, fs, d):
        e = self.fexpr(c, fs, d)
        return "(" + e + ")" if self.rng.random() < 0.3 else e

    def fatom(self, c, fs, d):
        if self.rng.random() < 0.5:
            return c.pn(*self.rng.choice(fs))
        return "(" + self.fexpr(c, fs, d) + ")"

    # -- conditions --------------------------------------------------------
    def cond(self, base, sibs, d=0):
        """Boolean XPath over sibling nodes; base is '' or '../' etc."""
        r = self.rng
        k = r.random()
        if d < 2 and k < 0.2:
            return f"{self.cond(base, sibs, d + 1)} {r.choice(['and', 'or'])} {self.cond(base, sibs, d + 1)}"
        if d < 2 and k < 0.3:
            return f"not({self.cond(base, sibs, d + 1)})"
        n, kind, ti = r.choice(sibs)
        path = base + n
        if kind == "leaf":
            c = r.random()
            if c < 0.2:
                return path
            if ti.samples and c < 0.7:
                s = r.choice([x for x in ti.samples])
                q = "'" if "'" not in s else '"'
                if ti.base == "decimal64":
                    return f"number({path}) = {s}"
                return f"{path} {r.choice(['=', '=', '!='])} {q}{s}{q}"
            if ti.base in INTS and ti.base not in ("int64", "uint64"):
                return f"{path} {r.choice(['<', '>', '<=', '>='])} {r.choice(['0', '3', '10'])}"
            if ti.base == "string":
                return f"string-length({path}) {r.choice(['<', '>'])} {r.choice(['1', '2', '3'])}"
            return f"boolean({path})"
        if kind in ("list", "leaf-list"):
            return f"count({path}) {r.choice(['<', '>', '=', '>='])} {r.choice(['1', '2', '3'])}"
        return r.choice([path, f"count({path}/*) > 1", f"boolean({path})"])

    # -- data nodes --------------------------------------------------------
    def children(self, c, depth, sibs, cfg, ingrp=False, n=None, mand=True, inaug=False):
        """Generate data definition statements; sibs collects condition
        targets [(name, kind, TI)] visible as siblings."""
        r = self.rng
        out = []
        k = n if n is not None else r.randint(1, self.p.width)
        for _ in range(k):
            x = r.random()
            p = self.p
            if x < p.choice and depth > 0:
                out.append(self.g_choice(c, depth, sibs, cfg, ingrp, mand))
            elif x < p.choice + p.uses:
                u = self.g_uses(c, depth, sibs, cfg, ingrp)
                if u is not None:
                    out.append(u)
                else:
                    out.append(self.g_leaf(c, sibs, cfg, ingrp, mand))
            elif x < p.choice + p.uses + p.anydata:
                st = S(r.choice(["anydata", "anyxml"]) if not self.p.xml else "anydata", self.name("any"))
                self.common(c, st, sibs, cfg, ingrp)
                out.append(st)
            elif depth > 0 and r.random() < 0.25:
                out.append(self.g_container(c, depth, sibs, cfg, ingrp, mand))
            elif depth > 0 and r.random() < 0.3:
                out.append(self.g_list(c, depth, sibs, cfg, ingrp, mand))
            elif r.random() < 0.2:
                out.append(self.g_leaflist(c, sibs, cfg, ingrp, mand))
            else:
                out.append(self.g_leaf(c, sibs, cfg, ingrp, mand))
        return out

    def common(self, c, st, sibs, cfg, ingrp, when=True):
        """when/if-feature/config/extra on a node; returns (conditional?)"""
        cnd = False
        if when and sibs and self.chance(self.p.when):
            base = "" if st.kw in ("choice", "case") else "../"
            st.add(S("when", self.cond(base, sibs)))
            cnd = True
        if self.iff(c, st):
            cnd = True
        if self.p.extra and self.chance(0.08):
            st.add(S("description", self.rng.choice(["A text.", "Multi word; {x}", "q\"uote 'n'"])))
        if self.p.statusp and self.chance(self.p.statusp):
            st.add(S("status", self.rng.choice(["current", "deprecated"])))
        return cnd

    def setcfg(self, st, cfg):
        if cfg and self.chance(self.p.state):
            st.add(S("config", "false"))
            return False
        if self.chance(0.03):
            st.add(S("config", "true" if cfg else "false"))
        return cfg

    def musts(self, st, sibs, base, own=None):
        if not self.chance(self.p.must):
            return
        opts = []
        if sibs:
            opts.append(self.cond(base, sibs))
        if own is not None:
            if own.samples:
                s = self.rng.choice(own.samples)
                if "'" not in s:
                    opts.append(f". != '{s}'")
            opts.append("string-length(.) < 4")
        if not opts:
            return
        m = S("must", self.rng.choice(opts))
        if self.chance(0.3):
            m.add(S("error-message", "constraint broken"))
        if self.chance(0.3):
            m.add(S("error-app-tag", "my-tag"))
        st.add(m)

    def g_leaf(self, c, sibs, cfg, ingrp, mand=True, plain=False):
        st = S("leaf", self.name("l"))
        cnd = self.common(c, st, sibs, cfg, ingrp)
        self.setcfg(st, cfg)
        ti = None
        if not plain and sibs and self.chance(self.p.leafref):
            cand = [(s[0], s[2]) for s in sibs if s[1] in ("leaf", "leaf-list") and
                    s[2].base not in ("empty", "leafref")]
            cand += [(s[0] + "/" + n, t) for s in sibs if s[1] == "list" and s[2]
                     for n, t in s[2].leaves]
            if cand:
                n, t = self.rng.choice(cand)
                ts = S("type", "leafref", S("path", "../" + n))
                if self.chance(0.3):
                    ts.add(S("require-instance", "false"))
                ti = TI(ts, t.samples, "leafref")
        if ti is None:
            ti = self.gen_type(c)
        st.add(ti.stmt())
        self.musts(st, sibs, "../", ti)
        if mand and self.chance(self.p.mandatory):
            st.add(S("mandatory", "true"))
        elif ti.samples and (self.chance(self.p.default) or getattr(ti, "baddefault", False)):
            st.add(S("default", self.dtext(ti)))
        elif getattr(ti, "baddefault", False):
            st.add(S("mandatory", "true"))
        if self.p.extra and self.chance(0.08):
            st.add(S("units", "s"))
        if not cnd:
            sibs.append((st.arg, "leaf", ti))
        return st

    def dtext(self, ti):
        s = self.rng.choice(ti.samples)
        if ti.base in INTS and self.chance(0.1) and s not in ("0",):
            v = int(s)
            return ("-" if v < 0 else "") + self.rng.choice([hex(abs(v)), "0" + oct(abs(v))[2:]])
        return s

    def g_leaflist(self, c, sibs, cfg, ingrp, mand=True):
        st = S("leaf-list", self.name("ll"))
        cnd = self.common(c, st, sibs, cfg, ingrp)
        self.setcfg(st, cfg)
        ti = self.gen_type(c)
        while ti.base == "empty":
            ti = self.gen_type(c)
        st.add(ti.stmt())
        self.card(st, mand)
        if self.chance(0.2):
            st.add(S("ordered-by", self.rng.choice(["user", "system"])))
        if ti.samples and not st.one("min-elements") and (
                self.chance(self.p.default * 0.6) or getattr(ti, "baddefault", False)):
            k = min(len(ti.samples), self.rng.randint(1, 3))
            mx = st.val("max-elements")
            if mx and mx.isdigit():
                k = min(k, int(mx))
            for s in self.rng.sample(ti.samples, k):
                st.add(S("default", s))
        elif getattr(ti, "baddefault", False) and not st.one("min-elements"):
            st.add(S("min-elements", "1"))
        self.musts(st, sibs, "../", ti)
        if not cnd:
            sibs.append((st.arg, "leaf-list", ti))
        return st

    def card(self, st, mand):
        r = self.rng
        if mand and self.chance(0.15):
            st.add(S("min-elements", str(r.randint(1, 2))))
        if self.p.maxels and self.chance(0.2):
            st.add(S("max-elements", r.choice(["2", "3", "4", "unbounded"])))

    def g_container(self, c, depth, sibs, cfg, ingrp, mand=True):
        st = S("container", self.name("c"))
        cnd = self.common(c, st, sibs, cfg, ingrp)
        cfg = self.setcfg(st, cfg)
        if self.chance(self.p.presence):
            st.add(S("presence", "p"))
            mand = True
        if cnd and not st.one("presence"):
            mand = False
        own = []
        if self.chance(0.1):
            st.add(self.local_typedef(c))
        kids = self.children(c, depth - 1, own, cfg, ingrp, mand=mand)
        if own:
            self.musts(st, own, "")
        st.add(kids)
        if not cnd:
            sibs.append((st.arg, "container", None))
        return st

    def local_typedef(self, c):
        save = self.typedefs.get(c.mod, [])
        self.typedefs[c.mod] = list(save)
        st = self.gen_typedef(c)
        self.typedefs[c.mod] = save
        return st

    def g_list(self, c, depth, sibs, cfg, ingrp, mand=True):
        r = self.rng
        st = S("list", self.name("li"))
        cnd = self.common(c, st, sibs, cfg, ingrp)
        cfg = self.setcfg(st, cfg)
        own = []
        kids = []
        klist = keys = []
        if cfg or not self.chance(self.p.keyless):
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                n = self.name("k")
                keys.append(n)
                ti = self.gen_type(c, key=True)
                lf = S("leaf", n)
                lf.add(ti.stmt())
                if getattr(ti, "baddefault", False):
                    lf.add(S("default", r.choice(ti.samples)) if ti.samples else S("mandatory", "true"))
                if not cfg and self.chance(0.2):
                    lf.add(S("config", "false"))
                kids.append(lf)
                own.append((n, "leaf", ti))
            st.add(S("key", r.choice([" ", "  "]).join(keys)))
            if self.chance(0.15):
                r.shuffle(kids)
        body = self.children(c, depth - 1, own, cfg, ingrp, mand=True)
        self.card(st, mand)
        if self.chance(0.2):
            st.add(S("ordered-by", r.choice(["user", "system"])))
        lv = [x.arg for x in body if x.kw == "leaf" and x.one("type").arg != "empty"
              and not x.one("when") and not x.one("if-feature")]
        if lv and self.chance(self.p.unique):
            st.add(S("unique", " ".join(r.sample(lv, min(len(lv), r.randint(1, 2))))))
        else:
            for x in body:
                if x.kw == "container" and not x.one("presence") and not x.one("when") \
                        and not x.one("if-feature") and self.chance(self.p.unique):
                    lv = [y.arg for y in x.all("leaf") if not y.one("when") and not y.one("if-feature")]
                    if lv:
                        st.add(S("unique", x.arg + "/" + lv[0]))
                        break
        if own:
            self.musts(st, own, "")
        st.add(kids if self.chance(0.8) else kids[:1])
        done = set(map(id, st.subs))
        rest = [k for k in kids if id(k) not in done]
        st.add(body)
        st.add(rest)
        if not cnd:
            sibs.append((st.arg, "list", TI(None, [], "list", leaves=[
                (x[0], x[2]) for x in own if x[1] == "leaf" and
                x[2].base not in ("empty", "leafref") and
                (x[0] in klist or self.chance(0.2))])))
        return st

    def g_choice(self, c, depth, sibs, cfg, ingrp, mand=True):
        r = self.rng
        st = S("choice", self.namesake(c) or self.name("ch"))
        cnd = self.common(c, st, sibs, cfg, ingrp)
        cfg = self.setcfg(st, cfg)
        cases = []
        csibs = list(sibs)
        for i in range(r.randint(1, 4)):
            if r.random() < 0.55:
                cs = S("case", self.namesake(c) or self.name("ca"))
                self.common(c, cs, csibs, cfg, ingrp)
                own = list(csibs)
                cs.add(self.children(c, depth - 1, own, cfg, ingrp, n=r.randint(1, 3), mand=True))
                cases.append(cs)
            else:
                own = list(csibs)
                x = r.random()
                if x < 0.6:
                    cases.append(self.g_leaf(c, own, cfg, ingrp, mand=self.chance(0.3)))
                elif x < 0.8:
                    cases.append(self.g_container(c, depth - 1, own, cfg, ingrp))
                else:
                    cases.append(self.g_leaflist(c, own, cfg, ingrp))
        if mand and self.chance(self.p.mandatory):
            st.add(S("mandatory", "true"))
        elif self.chance(0.5):
            dc = r.choice(cases)
            if not dc.one("if-feature") and not self.has_mand(dc):
                st.add(S("default", dc.arg))
        st.add(cases)
        for cs in cases:
            if cs.kw == "case":
                self.casenames += [(c.mod, x.arg) for x in cs.subs if x.kw in
                                   ("leaf", "leaf-list", "container", "list")]
        return st

    def namesake(self, c):
        """Name of a data node in a case of another choice (legal, as the parent differs)."""
        if self.casenames and self.chance(self.p.namesakes):
            m, n = self.casenames.pop(self.rng.randrange(len(self.casenames)))
            return n if m == c.mod else None
        return None

    def has_mand(self, st):
        """mandatory nodes directly under a default case are illegal"""
        if st.val("mandatory") == "true" or st.one("min-elements"):
            return True
        if st.kw in ("case", "container") and not st.one("presence"):
            return any(self.has_mand(x) for x in st.subs) or bool(st.all("uses"))
        return False

    def g_grouping(self, c, depth):
        n = self.name("g")
        st = S("grouping", n)
        sibs = []
        if self.chance(0.15):
            st.add(self.local_typedef(c))
        st.add(self.children(c, depth, sibs, True, ingrp=True, mand=self.chance(0.5)))
        self.groupings.setdefault(c.mod, []).append((n, st, sibs))
        return st

    def g_uses(self, c, depth, sibs, cfg, ingrp):
        r = self.rng
        cands = []
        for m in c.visible():
            for g in self.groupings.get(m, []):
                cands.append((m,) + g)
        if not cands:
            return None
        m, n, gst, gs = r.choice(cands)
        if any(m == um and n == un for um, un in c.used_here):
            return None
        true = any(x.kw == "config" and x.arg == "true" or getattr(x, "cfgtrue", False)
                   for x in gst.walk())
        if not cfg and true:
            return None
        c.used_here.append((m, n))
        st = S("uses", c.pn(m, n))
        st.cfgtrue = true
        cnd = False
        if sibs and self.chance(self.p.when):
            st.add(S("when", self.cond("", sibs)))
            cnd = True
        if self.iff(c, st):
            cnd = True
        # refine
        tops = [x for x in gst.subs if x.kw in ("leaf", "leaf-list", "container", "list", "choice")]
        if tops and self.chance(0.4):
            t = r.choice(tops)
            rf = S("refine", t.arg)
            if t.kw == "leaf" and not t.one("mandatory") and t.one("default") and self.chance(0.5):
                if t.one("type").arg in INTS and not t.one("type").subs:
                    rf.add(S("default", r.choice(["7", "8", "3"])))
            if t.kw == "leaf" and not t.one("default") and not t.one("mandatory") and not cnd:
                ty = t.one("type")
                if ty.arg in INTS or ty.arg in ("string", "boolean"):
                    rf.add(S("mandatory", "true"))
            if t.kw == "container" and not t.one("presence") and self.chance(0.4):
                rf.add(S("presence", "refined"))
            if t.kw in ("list", "leaf-list"):
                if self.chance(0.5) and not t.one("default"):
                    rf.add(S("max-elements", r.choice(["3", "5"])))
            if t.kw == "leaf-list" and t.one("type").arg in INTS and \
                    not t.one("type").subs and not t.one("min-elements") and self.chance(0.6):
                for v in r.sample(["7", "8", "9", "10"], r.randint(1, 3)):
                    rf.add(S("default", v))
            elif t.kw in ("list", "leaf-list") and not t.one("default") and not cnd and \
                    t.one("type") is not None and t.one("type").arg in INTS and self.chance(0.3):
                rf.add(S("min-elements", "1"))
            if t.kw in ("leaf", "choice") and t.val("mandatory") == "true" and self.chance(0.5):
                rf.add(S("mandatory", "false"))
            if self.chance(0.5) and t.val("config") == "false" and cfg and \
                    t.kw in ("leaf", "leaf-list"):
                rf.add(S("config", "true"))
            if self.chance(0.3):
                rf.add(S("description", "refined text"))
            if self.chance(0.3) and t.kw in ("container", "list", "leaf") and cfg and \
                    not t.one("config") and not any(x.kw == "config" for x in t.walk()):
                if not any(x.kw == "key" and t.arg in (x.arg or "").split() for x in gst.walk()):
                    rf.add(S("config", "false"))
            if self.chance(0.2) and t.kw == "leaf":
                rf.add(S("must", "string-length(.) < 6"))
            if rf.subs:
                st.add(rf)
        conts = [x for x in gst.subs if x.kw in ("container", "list")]
        if conts and self.chance(0.3):
            t = r.choice(conts)
            ag = S("augment", t.arg)
            own = []
            ag.add(self.children(c, 0, own, cfg and t.val("config") != "false", ingrp, n=1, mand=False))
            if ag.subs:
                st.add(ag)
        if not cnd:
            for s in gs:
                sibs.append(s)
        return st


class Scope:
    """Name scope of the module text being generated."""

    def __init__(self, mod, prefixes, own):
        self.mod = mod                 # module that owns definitions
        self.prefixes = prefixes       # module name -> prefix
        self.own = own
        self.used_here = []

    def visible(self):
        return [self.mod] + [m for m in self.prefixes if m != self.mod]

    def pn(self, mod, name):
        if mod == self.mod:
            return name
        return self.prefixes[mod] + ":" + name


class Model:
    """Generated data model: modules and their reference compilation."""

    def __init__(self, mods):
        self.mods = mods
        self.lib = Lib(mods)
        self.lib.root.lib = self.lib

    def yang_library(self, order=None):
        ms = order if order is not None else self.mods
        out = []
        for m in ms:
            e = {"name": m.name, "revision": m.rev, "namespace": m.ns,
                 "conformance-type": "implement" if m.implement else "import"}
            if m.features:
                e["feature"] = sorted(m.features)
            if m.subs:
                e["submodule"] = [{"name": s.name, "revision": s.rev} for s in m.subs]
            out.append(e)
        return {"ietf-yang-library:modules-state": {
            "module-set-id": "vf", "module": out}}

    def write(self, d, rng=None):
        for m in self.mods:
            for t in m.texts():
                fn = os.path.join(d, f"{t.name}@{t.rev}.yang" if t.rev else f"{t.name}.yang")
                with open(fn, "w", encoding="utf-8") as f:
                    f.write(render(t.stmt, rng))
        with open(os.path.join(d, "yang-library.json"), "w") as f:
            json.dump(self.yang_library(), f, indent=1)

    def text(self):
        return "\n".join(render(t.stmt) for m in self.mods for t in m.texts())

    def build(self, d, rng=None, order=None):
        """The data model under test."""
        from yangson import DataModel
        self.write(d, rng)
        return DataModel(json.dumps(self.yang_library(order)), (d,))


def header(name, prefix, imports=(), belongs=None, rev=REV):
    if belongs:
        st = S("submodule", name, S("yang-version", "1.1"),
               S("belongs-to", belongs[0], S("prefix", belongs[1])))
    else:
        st = S("module", name, S("yang-version", "1.1"),
               S("namespace", f"urn:vf:{name}"), S("prefix", prefix))
    for m, p in imports:
        st.add(S("import", m, S("prefix", p)))
    return st


def gen_identities(g, st, c, n, feats=True):
    for _ in range(n):
        i = S("identity", g.name("id"))
        if g.ident and g.chance(0.75):
            bases = g.rng.sample(g.ident, min(len(g.ident), g.rng.choice([1, 1, 2])))
            for b in bases:
                i.add(S("base", c.pn(*b)))
        if feats:
            g.iff(c, i)
        st.add(i)
        g.ident.append((c.mod, i.arg))


JUNK = {"type": ["nosuch", "uint8"], "default": ["7", "zz"], "key": ["nosuch"], "config": ["false", "true"], "mandatory": ["true", "false"],
        "when": ["false()"], "must": ["false()"], "units": ["parsecs"], "presence": ["x"], "min-elements": ["3"], "max-elements": ["0"],
        "ordered-by": ["user"], "if-feature": ["nosuch"], "status": ["obsolete"], "base": ["nosuch"], "path": ["../nosuch"], "range": ["1..2"],
        "length": ["0"], "pattern": ["[a]"], "modifier": ["invert-match"], "enum": ["zz"], "bit": ["zz"], "value": ["77"], "position": ["77"],
        "uses": ["nosuch"], "prefix": ["zz"], "namespace": ["urn:zz"], "revision": ["2031-01-01"], "belongs-to": ["zz"], "include": ["zz"],
        "import": ["zz"], "augment": ["/zz"], "deviation": ["/zz"], "refine": ["zz"], "deviate": ["not-supported"], "unique": ["zz"],
        "fraction-digits": ["3"], "require-instance": ["false"], "input": [None], "output": [None], "yang-version": ["1"],
        **{k: ["zz"] for k in ("leaf", "leaf-list", "list", "container", "grouping", "typedef", "feature", "identity", "error-message",
                               "error-app-tag", "description", "reference", "case", "choice", "rpc", "action", "notification", "anydata")}}


def extend(m, rng, prob=0.12):
    """Add statements of an extension module, named as those of YANG and without effect. Returns how many."""
    n = 0
    for mod in m.mods:
        for t in mod.texts():
            pf = rng.choice(["x", "ext", "y-1", "_"])
            if pf in t.prefixes:
                continue
            imp = S("import", "m-ext", S("prefix", pf))
            for st in list(t.stmt.walk()):
                if rng.random() >= prob:
                    continue
                kw = rng.choice([x.kw for x in st.subs if x.kw in JUNK] * 2 + sorted(JUNK))
                same = [x.arg for x in st.subs if x.kw == kw]
                e = S(f"{pf}:{kw}", rng.choice(same + JUNK[kw]))
                e.parent = st
                st.subs.insert(rng.choice([0, 0, rng.randint(0, len(st.subs))]), e)
                n += 1
            at = next(i for i, x in enumerate(t.stmt.subs) if x.kw in ("prefix", "belongs-to"))
            imp.parent = t.stmt
            t.stmt.subs.insert(at + 1, imp)
    m.mods.append(Mod(header("m-ext", "e"), REV, implement=rng.random() < 0.5))
    m.mods[-1].stmt.add(S("revision", REV))
    for k in sorted(JUNK):
        m.mods[-1].stmt.add(S("extension", k, S("argument", "a") if JUNK[k] != [None] else None))
    return n


def gen_model(rng, prof=None):
    while True:
        m = gen_model1(rng, prof)
        if m is not None and not clashes(m.lib.root) and not bad_defaults(m.lib.root) and \
                not bad_config(m.lib.root):
            return m


def bad_config(root):
    """Configuration inside state data (where a refine or deviation changed it)?"""
    return any(n.cfgexpl and n.parent is not root and not n.parent.config and
               not inside_nonconfig(n) for n in root.walk())


def bad_defaults(root):
    """A (typedef) default that a restriction or deviation made invalid?"""
    for n in root.walk():
        if n.kw in ("leaf", "leaf-list"):
            try:
                leaf_defaults(n)
            except TypeErr:
                return True
    return False


def clashes(n):
    """Two data nodes of the same name in one parent (through choices), or
    a choice left without cases?"""
    if n.kw == "choice" and not n.children:
        return True
    ds = [(c.ns, c.name) for c in n.dchildren()]
    cs = [(c.ns, c.name) for c in n.children]
    if len(set(ds)) < len(ds) or len(set(cs)) < len(cs):
        return True
    return any(clashes(c) for c in n.children)


def gen_model1(rng, prof=None):
    """A random model of 2-4 modules (one import-only, maybe a submodule)."""
    g = ModelGen(rng, prof)
    p = g.p
    grops = []              # operations in groupings

    def grouping(top, c, depth):
        c.used_here = []
        gr = g.g_grouping(c, depth)
        top.add(gr)
        if p.opsub and g.chance(p.opsub):
            gs, g.groupings = g.groupings, {}        # no circles
            op = gen_op(g, c)
            g.groupings = gs
            at = rng.choice([x for x in gr.walk() if x is gr or x.kw == "container" or x.kw == "list" and x.one("key")])
            at.add(op)
            grops.append((at, op))
        return gr

    # --- types module (import only) ---------------------------------------
    ct = Scope("m-t", {}, None)
    mt = header("m-t", "t")
    mt.add(S("revision", REV))
    for _ in range(rng.randint(1, 2)):
        f = S("feature", g.name("f"))
        g.feats.setdefault("m-t", []).append(f.arg)
        mt.add(f)
    base = S("identity", g.name("id"))
    mt.add(base)
    g.ident.append(("m-t", base.arg))
    for _ in range(rng.randint(1, 4)):
        mt.add(g.gen_typedef(ct))
    for _ in range(rng.randint(0, 2)):
        grouping(mt, ct, 1)
    # --- main module --------------------------------------------------------
    ca = Scope("m-a", {"m-t": rng.choice(["t", "tt", "a-t"])}, None)
    ma = header("m-a", "a", [("m-t", ca.prefixes["m-t"])])
    sub = None
    if g.chance(p.submodule):
        ma.add(S("include", "m-a-s"))
    ma.add(S("revision", REV))
    for _ in range(rng.randint(2, 4)):
        f = S("feature", rng.choice(["", "", "x-", "nota", "or", "android"]) + g.name("f"))
        if g.feats.get("m-a") and g.chance(0.3):
            f.add(S("if-feature", rng.choice(g.feats["m-a"])))
        g.feats.setdefault("m-a", []).append(f.arg)
        ma.add(f)
    gen_identities(g, ma, ca, rng.randint(1, 4))
    for _ in range(rng.randint(1, 3)):
        ma.add(g.gen_typedef(ca))
    for _ in range(rng.randint(1, 3)):
        grouping(ma, ca, rng.randint(1, 2))
    sibs = []
    for _ in range(rng.randint(2, 4)):
        ca.used_here = []
        x = rng.random()
        if x < 0.55:
            ma.add(g.g_container(ca, p.depth, sibs, True, False, mand=g.chance(0.5)))
        elif x < 0.8:
            ma.add(g.g_list(ca, p.depth, sibs, True, False, mand=False))
        elif x < 0.9:
            ma.add(g.g_choice(ca, 2, sibs, True, False, mand=False))
        else:
            ma.add(g.g_leaf(ca, sibs, True, False, mand=False))
    if p.ops:
        add_ops(g, ma, ca)
    if g.chance(p.rpc):
        ca.used_here = []
        r = S("rpc", g.name("rpc"))
        for io in ("input", "output"):
            if g.chance(0.8):
                s = S(io)
                own = []
                s.add(g.children(ca, 1, own, True, False, n=rng.randint(1, 3)))
                r.add(s)
        strip_config(r)
        ma.add(r)
        ca.used_here = []
        no = S("notification", g.name("ntf"))
        own = []
        no.add(g.children(ca, 1, own, True, False, n=rng.randint(1, 3)))
        strip_config(no)
        ma.add(no)
    mods = []
    mt_mod = Mod(mt, REV, implement=False)
    ma_mod = Mod(ma, REV)
    if ma.one("include"):
        sub = header("m-a-s", None, [("m-t", "ts")], belongs=("m-a", "aa"))
        sub.add(S("revision", REV))
        cs = Scope("m-a", {"m-t": "ts"}, None)
        sub.add(g.gen_typedef(cs))
        cs.used_here = []
        sub.add(g.g_container(cs, 2, [], True, False, mand=False))
        if g.chance(p.opsub):
            sub.add(gen_op(g, cs, "rpc"))
        sm = Mod(sub, REV)
        ma_mod.subs.append(sm)
        if p.rich:
            cs.used_here = []
            if g.chance(0.5):       # a grouping of the submodule, used in the module
                gn = grouping(sub, cs, 1).arg
                own = S("container", g.name("c"), S("uses", gn))
                ma.add(own)
            if g.chance(0.5):
                gen_identities(g, sub, cs, 1)
            conts = [x for x in ma.subs if x.kw in ("container", "list")]
            for x in rng.sample(conts, min(len(conts), rng.randint(0, 2))):
                cs.used_here = []
                ag = S("augment", "/aa:" + x.arg)
                g.iff(cs, ag)
                cfg = x.val("config") != "false"
                ag.add(g.children(cs, 1, [], cfg, False, n=rng.randint(1, 2), mand=False))
                sub.add(ag)
            if g.chance(0.3):
                ss = header("m-a-s2", None, [("m-t", "t")], belongs=("m-a", "a"))
                ss.add(S("revision", REV))
                c2 = Scope("m-a", {"m-t": "t"}, None)
                ss.add(g.g_container(c2, 1, [], True, False, mand=False))
                ma.one("include").parent.subs.insert(
                    ma.subs.index(ma.one("include")), S("include", "m-a-s2"))
                ma_mod.subs.append(Mod(ss, REV))
    if p.rich:
        if g.chance(0.6):           # no data nodes from an import-only module
            mt.add(S("container", g.name("c"), S("leaf", g.name("l"), S("type", "string"))))
            mt.add(S("rpc", g.name("rpc")))
    # features: closed under prerequisites
    sup = set()
    for f in ma.all("feature"):
        if g.chance(0.6) and all(i.arg in sup for i in f.all("if-feature")):
            sup.add(f.arg)
    ma_mod.features = sup
    mt_mod.features = {f.arg for f in mt.all("feature") if g.chance(0.5)}
    mods = [mt_mod, ma_mod]
    # --- augmenting module -----------------------------------------------------
    if p.augment:
        lib1 = Lib(mods)
        cb = Scope("m-b", {"m-a": "a", "m-t": "t"}, None)
        mb = header("m-b", "b", [("m-a", "a"), ("m-t", "t")])
        mb.add(S("revision", REV))
        gen_identities(g, mb, cb, rng.randint(0, 3), feats=False)
        tg = [n for n in lib1.root.walk()
              if n.kw in ("container", "list", "choice", "case", "input", "notification")]
        rng.shuffle(tg)
        for t in tg[:rng.randint(1, p.augment)]:
            cb.used_here = []
            ag = S("augment", "/" + "/".join("a:" + x for _, x in t.spath()))
            g.iff(cb, ag)
            own = []
            if t.kw == "choice":
                cs = S("case", g.name("ca"))
                if g.chance(0.4):           # short case
                    ag.add(rng.choice([g.g_leaf, g.g_leaflist])(
                        cb, own, t.config, False, mand=False))
                else:
                    cs.add(g.children(cb, 0, own, t.config, False, n=rng.randint(1, 2),
                                      mand=False))
                    ag.add(cs)
            else:
                ag.add(g.children(cb, 1 if p.depth > 1 else 0, own, t.config, False,
                                  n=rng.randint(1, 3), mand=False))
                if p.ops and t.kw in ("container", "list") and g.chance(p.ops) and ops_ok(t):
                    ag.add(gen_op(g, cb))
            if g.chance(p.when):
                lv = [x for x in t.dchildren() if x.kw == "leaf" and x.ns == "m-a"
                      and not x.whens]
                if lv and t.kw in ("container", "list"):
                    ag.subs.insert(0, S("when", "a:" + rng.choice(lv).name))
                    ag.subs[0].parent = ag
            if inside_nonconfig(t):
                strip_config(ag)
            mb.add(ag)
        if g.chance(0.6):
            mb.add(g.g_container(cb, 2, [], True, False, mand=False))
        if g.chance(p.chain):
            # augments of nodes that other augments add, before or after them
            for _ in range(rng.randint(1, 2)):
                tg = [n for n in Lib(mods + [Mod(mb, REV)]).root.walk() if n.kw in ("container", "list") and n.ns == "m-b"]
                if not tg:
                    break
                t = rng.choice(tg)
                cb.used_here = []
                ag = S("augment", "/" + "/".join({"m-a": "a", "m-b": "b"}[q] + ":" + x for q, x in t.spath()))
                g.iff(cb, ag)
                ag.add(g.children(cb, 1, [], t.config, False, n=rng.randint(1, 2), mand=False))
                if inside_nonconfig(t):
                    strip_config(ag)
                at = [i for i, x in enumerate(mb.subs) if x.kw == "augment"]
                if at:
                    mb.subs.insert(rng.choice(at), ag)
                    ag.parent = mb
                else:
                    mb.add(ag)
        mods.append(Mod(mb, REV))
    if p.rich and g.chance(0.6):
        mx = header("m-x", "x", [("m-a", "a")])
        mx.add(S("revision", REV))
        mx.add(S("typedef", g.name("t"), S("type", "string")))
        t = [n for n in Lib(mods).root.walk() if n.kw in ("container", "list", "leaf")]
        t = rng.choice(t) if t else None
        pth = t.spath() if t else [(None, None)]
        if all(ns == "m-a" for ns, _ in pth):
            pt = "/" + "/".join("a:" + x for _, x in pth)
            if t.kw != "leaf":
                mx.add(S("augment", pt, S("leaf", g.name("l"), S("type", "string"))))
            else:
                mx.add(S("deviation", pt, S("deviate", "not-supported")))
        mods.insert(rng.randrange(len(mods) + 1), Mod(mx, REV, implement=False))
    if p.deviations:
        lib2 = Lib(mods)
        if clashes(lib2.root):
            return None
        md = header("m-d", "d", [("m-a", "a"), ("m-t", "t")])
        md.add(S("revision", REV))
        cd = Scope("m-d", {"m-a": "a", "m-t": "t"}, None)
        gen_deviations(g, md, cd, lib2, p.deviations)
        mods.append(Mod(md, REV))
    for at, op in grops:
        ns = [n for n in Lib(mods).root.walk() if n.kw in ("action", "notification") and n.name == op.arg]
        if not all(n.parent.kw in ("container", "list") and ops_ok(n.parent) for n in ns):
            at.subs.remove(op)
    return Model(mods)


def gen_op(g, c, a="action"):
    """An action or notification statement."""
    rng = g.rng
    c.used_here = []
    if g.chance(0.6):
        st = S(a, g.name("act"))
        g.iff(c, st)
        for io in ("input", "output"):
            if g.chance(0.8):
                s = S(io)
                own = []
                s.add(g.children(c, 1, own, True, False, n=rng.randint(1, 3)))
                if own:
                    g.musts(s, own, "")
                st.add(s)
    else:
        st = S("notification", g.name("ntf"))
        g.iff(c, st)
        own = []
        st.add(g.children(c, 1, own, True, False, n=rng.randint(1, 3)))
        if own:
            g.musts(st, own, "")
    strip_config(st)
    return st


def ops_ok(t):
    """May an action or notification be added to node t of the reference tree?"""
    while t is not None and t.kw != "root":
        if t.kw in ("input", "output", "notification", "rpc", "action") or \
                t.kw == "list" and not t.keys:
            return False
        t = t.parent
    return True


def add_ops(g, ma, c):
    places = []

    def scan(st):
        for x in st.subs:
            if x.kw in ("container", "list", "choice", "case"):
                if x.kw == "list" and not x.one("key"):
                    continue
                if x.kw in ("container", "list"):
                    places.append(x)
                scan(x)
    scan(ma)
    for x in places:
        if g.chance(g.p.ops):
            x.add(gen_op(g, c))


def inside_nonconfig(n):
    while n is not None and n.kw != "root":
        if n.kw in ("rpc", "action", "notification", "input", "output"):
            return True
        n = n.parent
    return False


def strip_config(st):
    for s in st.walk():
        s.subs = [x for x in s.subs if x.kw != "config"]


def gen_deviations(g, md, cd, lib, count):
    rng = g.rng
    nodes = [n for n in lib.root.walk()
             if n.kw in ("leaf", "leaf-list", "list", "container", "choice")
             and all(ns == "m-a" for ns, _ in n.spath())]
    rng.shuffle(nodes)
    keyn = set()
    for n in lib.root.walk():
        for ns, k in n.keys:
            kn = n.dchild(ns, k)
            if kn:
                keyn.add(id(kn))
    refd = set()
    for n in lib.root.walk():
        if n.type is not None:
            for t in [n.type] + n.type.members:
                if t.base == "leafref":
                    refd.add(id(t.target_node))
    uniq = set()
    for n in lib.root.walk():
        for u in n.unique:
            for pth in u:
                x = n
                for ns, k in pth:
                    x = x.dchild(ns, k)
                    if x is None:
                        break
                    uniq.add(id(x))
    done = 0
    cfgdev = []
    for n in nodes:
        if done >= count:
            break
        path = "/" + "/".join("a:" + x for _, x in n.spath())
        dv = S("deviation", path)
        k = rng.random()
        special = id(n) in keyn or id(n) in refd or id(n) in uniq or \
            any(id(x) in refd or id(x) in uniq for x in n.walk())
        isdef = n.parent.kw == "choice" and n.parent.default
        if k < 0.2 and not special and not isdef and not (
                n.parent.kw == "case" and n.parent.parent.default) and len(n.parent.children) > 1:
            dv.add(S("deviate", "not-supported"))
        elif n.kw == "leaf" and not special:
            if n.default and k < 0.4:
                dv.add(S("deviate", "delete", S("default", n.default[-1][0])))
            elif not n.default and not n.mandatory and not n.type.default and k < 0.6 and \
                    not n.whens and not inside_choice(n):
                dv.add(S("deviate", "add", S("mandatory", "true")))
            elif n.mandatory and k < 0.6:
                dv.add(S("deviate", "replace", S("mandatory", "false")))
            elif k < 0.75:
                if not n.default:
                    dv.add(S("deviate", "replace", S("type", rng.choice(["int32", "string", "boolean"]))))
            elif k < 0.85 and n.units:
                dv.add(S("deviate", "delete", S("units", n.units)))
            elif k < 0.85:
                dv.add(S("deviate", "add", S("units", "devu")))
            elif n.musts:
                dv.add(S("deviate", "delete", S("must", n.musts[0][0])))
            else:
                dv.add(S("deviate", "add", S("must", "string-length(.) < 5")))
        elif n.kw in ("list", "leaf-list"):
            if n.kw == "leaf-list" and n.default and k < 0.5:
                dv.add(S("deviate", "delete", S("default", rng.choice(n.default)[0])))
            elif n.maxel is None and k < 0.7:
                dv.add(S("deviate", "add", S("max-elements", "3")))
            elif n.maxel is not None:
                dv.add(S("deviate", "replace", S("max-elements", rng.choice(["5", "unbounded"]))))
            if n.unique and k > 0.5 and not dv.subs:
                u = " ".join("/".join("a:" + x for _, x in p) for p in n.unique[0])
                dv.add(S("deviate", "delete", S("unique", u)))
            if not dv.subs and n.kw == "leaf-list" and n.type.base in INTS and \
                    not n.type.ranges and not n.minel:
                ds = S("deviate", "replace" if n.default else "add")
                for v in rng.sample(["7", "8", "9", "10"], rng.randint(1, 3)):
                    ds.add(S("default", v))
                dv.add(ds)
            elif not dv.subs and not n.minel and not n.default and not n.whens and \
                    not (n.type and n.type.default) and not inside_choice(n):
                dv.add(S("deviate", "add", S("min-elements", "1")))
            elif not dv.subs and n.minel:
                dv.add(S("deviate", "replace", S("min-elements", rng.choice("012"))))
        elif n.kw == "container" and not inside_nonconfig(n) and not special and \
                not any(x.spath()[:len(n.spath())] == n.spath() or
                        n.spath()[:len(x.spath())] == x.spath() for x in cfgdev):
            below = [x for x in n.walk() if x is not n]
            cfgdev.append(n)
            if n.config and not any(x.cfgexpl for x in below):
                dv.add(S("deviate", "replace" if n.cfgexpl else "add", S("config", "false")))
            elif not n.config and n.cfgexpl is False and n.parent.config and \
                    all(x.keys for x in below if x.kw == "list"):
                dv.add(S("deviate", "replace", S("config", "true")))
        elif n.kw == "choice":
            if n.default and k < 0.5:
                dv.add(S("deviate", "delete", S("default", n.default[-1][0])))
            elif n.mandatory and k < 0.7:
                dv.add(S("deviate", "replace", S("mandatory", "false")))
        if dv.subs:
            md.add(dv)
            done += 1


def inside_choice(n):
    while n is not None:
        if n.kw in ("choice", "case"):
            return True
        n = n.parent
    return False
