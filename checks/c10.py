"""C10: the schema is exactly what the YANG modules define."""
import json
import os
from vf import rdata, rtypes, util
from vf.core import Group
from vf.gen import Profile, extend, gen_model

PROPERTY = "C10"
RULE = ("random module sets (submodules, import-only modules, features, identities, groupings "
        "with refine and augment, augments of own and other modules incl. short cases, "
        "deviations, RPCs, actions, notifications) compiled by the library and by the "
        "reference compiler; one evaluation = one schema node compared in all its properties, "
        "in the schema itself and in the schema digest; non-trivial if the node is defined or "
        "changed by a grouping, augment, deviation or submodule or has restrictions")
ASSUMPTIONS = ["the reference compiler implements RFC 7950 (vf/rcomp.py)",
               "a container is mandatory if it has no presence and some mandatory child",
               "identities are defined by implemented modules only"]
KINDS = {"rpc": "rpcaction", "action": "rpcaction"}
DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml")


def mand(n):
    if n.kw in ("leaf", "anydata", "anyxml", "choice"):
        return n.mandatory
    if n.kw in ("list", "leaf-list"):
        return n.minel > 0
    if n.kw == "container":
        return not n.presence and any(mand(c) for c in n.children)
    return False


def type_facts(t, lib, config):
    """What the digest has to say about a type."""
    r = {"base": t.base}
    if getattr(t, "name", None):
        r["derived"] = t.name
    if t.base == "enumeration" and config:
        r["enums"] = sorted(t.enums)
    if t.base == "decimal64":
        r["fraction_digits"] = t.fd
    if t.base == "bits":
        row = []
        for b, p in sorted(t.bits.items(), key=lambda x: x[1]):
            row += [None] * (p - len(row)) + [b]
        r["bits"] = row
    if t.base == "identityref" and config:
        s = None
        for b in t.bases:
            d = lib.derived_set(b)
            s = d if s is None else s & d
        r["identities"] = sorted(f"{m}:{n}" for m, n in s)
    if t.base == "leafref":
        r["ref_type"] = type_facts(t.target, lib, config)
    if t.ranges and t.base not in ("leafref", "union"):
        r["range"] = [[num(a, t), num(b, t)] for a, b in t.ranges]
    if t.lengths:
        r["length"] = [[a] if a == b else [a, b] for a, b in t.lengths]
    return r


def num(x, t):
    if t.base == "decimal64":
        return rtypes.dec_canon(x)
    return str(x) if t.base in ("int64", "uint64") else x


def got_type(d):
    d = {k: v for k, v in d.items() if k not in ("patterns", "neg_patterns", "optype")}
    if "enums" in d:
        d["enums"] = sorted(d["enums"])
    if "identities" in d:
        d["identities"] = sorted(":".join(x[::-1]) if isinstance(x, list) else x
                                 for x in d["identities"])
    if "ref_type" in d:
        d["ref_type"] = got_type(d["ref_type"])
    if "length" in d:
        d["length"] = [[x[0]] if x[0] == x[-1] else [x[0], x[-1]] for x in d["length"]]
    return d


def facts(n, lib):
    """Properties of a node as the digest shows them, without children."""
    r = {"kind": KINDS.get(n.kw, n.kw)}
    if mand(n):
        r["mandatory"] = True
    if n.desc:
        r["description"] = n.desc
    if n.kw in ("leaf", "leaf-list"):
        r["type"] = type_facts(n.type, lib, n.config)
        df = None if mand(n) else rdata.leaf_defaults(n)
        if df:
            df = [rtypes.to_json(v, t) for v, t in df] if isinstance(df[0], tuple) else df
            r["default"] = df if n.kw == "leaf-list" else df[0]
        u = n.units or n.type.units
        if u:
            r["units"] = u
    if n.kw == "container":
        r["presence"] = n.presence
    if n.kw == "list":
        r["keys"] = [k if ns == n.ns else f"{ns}:{k}" for ns, k in n.keys]
    return r


def dname(c, n):
    """Name of child c of data node (or operation) n in the digest."""
    if c.kw in ("input", "output"):
        return f"{c.ns}:{c.name}"
    return c.iname()


class Cmp:
    def __init__(self, ctx, m, dm):
        self.ctx, self.m, self.dm = ctx, m, dm
        self.det = {"model": util.model_text(m.lib)}
        self.lib = m.lib

    def bad(self, mech, msg, **kw):
        self.ctx.fail(mech, msg, **dict(self.det, **kw))

    def eq(self, mech, n, what, want, got):
        self.ctx.ev("properties compared")
        if want != got:
            self.bad(mech, f"{pathof(n)}: {what} should be {want!r}, is {got!r}")

    # -- digest ----------------------------------------------------------------
    def digest(self, n, d, inop):
        kids = {}
        for c in n.children if n.kw not in ("leaf", "leaf-list") else ():
            if c.kw in ("choice", "case"):
                for x in c.dchildren():
                    kids[dname(x, n)] = x
            else:
                kids[dname(c, n)] = c
        if n.kw not in DATA[2:]:
            have = d.get("children", {})
            ops = {k for k, v in have.items() if v["kind"] in ("rpcaction", "notification",
                                                                "input", "output")}
            wops = {k for k, c in kids.items() if c.kw not in DATA}
            extra = set(have) - set(kids) - ops
            self.ctx.ev("digest objects")
            if extra:
                self.bad("extra-node", f"{pathof(n)}: unexpected {sorted(extra)} in the digest")
            missing = set(kids) - set(have) - wops
            if missing:
                self.bad("missing-node", f"{pathof(n)}: {sorted(missing)} not in the digest")
            if sum(1 for c in kids.values() if c.kw in ("rpc", "action", "notification")) != \
                    sum(1 for k in ops if have[k]["kind"] in ("rpcaction", "notification")):
                self.bad("operations", f"{pathof(n)}: operations in the digest: {sorted(ops)}")
            for k, c in kids.items():
                if k not in have or c.kw not in DATA:
                    continue
                x = have[k]
                w = facts(c, self.lib)
                if n.config and not c.config:
                    w["config"] = False
                g = {a: b for a, b in x.items() if a != "children"}
                if "type" in g:
                    g["type"] = got_type(g["type"])
                if inop:
                    g.pop("config", None)
                    w.pop("config", None)
                if "type" in w and w["type"]["base"] == "union":
                    g["type"].pop("union", None)
                for a in sorted(set(w) | set(g)):
                    self.eq("digest-" + a, c, f"digest member {a}", w.get(a), g.get(a))
                self.digest(c, x, inop)

    # -- schema nodes -------------------------------------------------------------
    def node(self, n, sn, inop):
        e = self.eq
        e("kind", n, "class", {"leaf-list": "LeafListNode", "rpc": "RpcActionNode",
                               "action": "RpcActionNode"}.get(n.kw, n.kw.capitalize() + "Node"),
          type(sn).__name__)
        e("name", n, "name and namespace", (n.name, n.ns), (sn.name, sn.ns))
        if not inop:
            e("config", n, "config", n.config, sn.config)
        if n.kw not in ("rpc", "action", "notification", "input", "output", "case"):
            e("mandatory", n, "mandatory", mand(n), bool(sn.mandatory))
        e("status", n, "status", status(n), sn.status.name)
        if n.kw not in ("input", "output"):
            e("description", n, "description", n.desc, sn.description)
        if n.kw in DATA or n.kw in ("input", "output", "notification"):
            e("must", n, "must error tags and messages",
              sorted((t or "must-violation", m or "") for _, t, m, _ in n.musts),
              sorted((m.error_tag or "must-violation", m.error_message or "") for m in sn.must))
        if n.kw in ("list", "leaf-list"):
            e("min-elements", n, "min-elements", n.minel, sn.min_elements)
            e("max-elements", n, "max-elements", n.maxel, sn.max_elements)
            e("ordered-by", n, "ordered by user", n.user, sn.user_ordered)
        if n.kw == "list":
            e("keys", n, "keys", n.keys, [(ns, k) for k, ns in sn.keys])
            e("unique", n, "number of unique statements", len(n.unique), len(sn.unique))
        if n.kw == "container":
            e("presence", n, "presence", n.presence, sn.presence)
        if n.kw in ("leaf", "leaf-list"):
            e("units", n, "units", n.units or n.type.units, sn.units)
            e("type", n, "type", (n.type.base, getattr(n.type, "name", None)),
              (sn.type.yang_type(), sn.type.name))
            df = [] if mand(n) else rdata.leaf_defaults(n)
            v = sn.default
            got = [] if v is None else [sn.type.to_raw(x) for x in v] if n.kw == "leaf-list" \
                else [sn.type.to_raw(v)]
            e("default", n, "default", raws(df), got)
        if n.kw == "choice":
            w = rdata.default_case(n)
            g = sn.default_case
            e("default-case", n, "default case", None if w is None else (w.name, w.ns), g)

    def all_nodes(self):
        root = self.lib.root
        for n in root.walk():
            if n is root:
                continue
            p = pathof(n)
            sn = self.dm.get_schema_node(p)
            inop = any(x.kw in ("rpc", "action", "notification") for x in up(n))
            t = origin(n)
            self.ctx.case([p, self.m.text()], t, None)
            self.ctx.ev("nodes in operations" if inop else "data nodes")
            if sn is None:
                self.bad("missing-node", f"{p} ({n.kw}) is not in the schema")
                continue
            self.node(n, sn, inop)
            if n.kw not in ("leaf", "leaf-list", "anydata", "anyxml"):
                want = sorted((c.ns, c.name) for c in n.children)
                got = sorted((c.ns, c.name) for c in flat(sn))
                self.eq("children", n, "children", want, got)
        self.eq("children", root, "top-level nodes", sorted((c.ns, c.name) for c in root.children),
                sorted((c.ns, c.name) for c in flat(self.dm.schema)))


def raws(df):
    return [rtypes.to_json(*x) if isinstance(x, tuple) and len(x) == 2 and
            hasattr(x[1], "base") else x for x in df]


def flat(sn):
    """Children of a schema node, looking into groups (uses and augment)."""
    out = []
    for c in sn.children:
        if c.name is None:
            out.extend(flat(c))
        else:
            out.append(c)
    return out


def up(n):
    while n is not None:
        yield n
        n = n.parent


def status(n):
    for x in up(n):
        if x.status:
            return x.status
        if x.kw in ("rpc", "action", "notification"):
            break
    return "current"


def pathof(n):
    out, prev = "", None
    for ns, nm in n.spath():
        out += "/" + (nm if ns == prev else f"{ns}:{nm}")
        prev = ns
    return out or "/"


def origin(n):
    """Is there something about the node worth comparing?"""
    return bool(n.musts or n.whens or n.default or n.minel or n.maxel or n.mandatory or
                n.keys or n.units or n.desc or n.presence or not n.config or
                n.parent.ns != n.ns or n.kw in ("choice", "case") or
                n.type is not None and (n.type.base == "union" or getattr(n.type, "name", None)))


def case(ctx, rng, prof=None):
    prof = prof or Profile(
        depth=rng.choice([2, 3, 4]), deviations=rng.choice([0, 3, 8, 15]),
        augment=rng.choice([1, 3, 6]), uses=rng.choice([0.1, 0.3]), choice=0.2,
        iffeature=rng.choice([0.05, 0.25]), rpc=0.7, ops=0.3, opsub=0.3, statusp=rng.choice([0, 0.1]),
        rich=True, submodule=0.6, unique=0.4, must=0.2)
    m = gen_model(rng, prof)
    if rng.random() < 0.5:
        ctx.ev("extension statements", extend(m, rng))
    dm = m.build(ctx.tmpdir(), rng)
    ctx.ev("models built")
    c = Cmp(ctx, m, dm)
    c.all_nodes()
    d = json.loads(dm.schema_digest())
    c.digest(m.lib.root, d, False)


# -- default access of NACM ----------------------------------------------------
NACM = """module ietf-netconf-acm { yang-version 1.1; namespace "urn:ietf:params:xml:ns:yang:ietf-netconf-acm"; prefix nacm; revision 2018-02-14;
extension default-deny-write; extension default-deny-all; }"""
FAKE = """module fake { yang-version 1.1; namespace "urn:fake"; prefix fake; extension default-deny-write; extension default-deny-all; extension other { argument x; } }"""


def deny(ctx, rng):
    """Statements of the NACM module that say what access to a node is denied by default."""
    from yangson import DataModel
    px = {m: dict(zip(("nacm", "fake"), rng.sample(["nacm", "n", "fake", "acm", "p"], 2))) for m in "mls"}
    count, want, groups, augs = [0], {}, {"m": [], "l": [], "s": []}, []

    def tags(home):
        """Extension statements and what they mean."""
        out, w = [], "none"
        if rng.random() < 0.45:
            w = rng.choice(["all", "write"])
            out.append(f"{px[home]['nacm']}:default-deny-{w};")
        if rng.random() < 0.2:
            out.append(f"{px[home]['fake']}:default-deny-{rng.choice(['all', 'write'])};")
        if rng.random() < 0.1:
            out.append(f"{px[home]['fake']}:other default-deny-all;")
        rng.shuffle(out)
        return " ".join(out), w

    def node(path, home, depth, op=False):
        count[0] += 1
        n = f"n{count[0]}"
        kw = rng.choice(["leaf", "leaf-list", "anydata", "anyxml"] + ["container", "list", "choice", "container"] * (depth < 3)
                        + ["action", "notification"] * (depth in (1, 2) and not op))
        if kw in ("action", "notification") and "/ch" in path:
            kw = "container"
        here = f"{path}/{n}" if path else f"/m:{n}"
        if kw == "choice":
            c = f"ch{n}"
            body = " ".join([f"case {c}{i} {{ " + node(f"{path}/{c}/{c}{i}" if path else f"/m:{c}/{c}{i}", home, depth + 1, op) + " }" for i in range(2)])
            return f"choice {c} {{ {body} }}"
        t, want[here] = tags(home)
        ctx.ev(f"{want[here]} {kw}")
        body = ""
        if kw in ("leaf", "leaf-list"):
            body = "type string; "
        elif kw == "action":
            want[here + "/input"] = "none"
            body = "input { " + node(here + "/input", home, 3, True) + " }"
        elif kw == "list":
            body = "key k; leaf k { type string; } "
            want[here + "/k"] = "none"
        if kw in ("container", "list", "notification"):
            body += " " + kids(here, home, depth + 1, op or kw == "notification")
        parts = [t, body]
        rng.shuffle(parts)
        return f"{kw} {n} {{ {parts[0]} {parts[1]} }}"

    def kids(path, home, depth, op):
        k = rng.randint(1, 3)
        if rng.random() < 0.3:
            place = "l" if home == "l" else rng.choice("mls")
            body = " ".join([node(path, place, depth, op) for _ in range(k)])
            g = f"g{sum(map(len, groups.values()))}"
            groups[place].append(f"grouping {g} {{ {body} }}")
            return f"uses {'' if (place == 'l') == (home == 'l') else 'l:'}{g};"
        if rng.random() < 0.2 and path and not op and "/ch" not in path:
            new = " ".join([node(path, "m", depth, op) for _ in range(k)])
            augs.append(f'augment "{path.replace("/m:", "/").replace("/", "/m:")}" {{ {new} }}')
            return ""
        return " ".join([node(path, home, depth, op) for _ in range(k)])

    body = " ".join([node("", "m", 0) for _ in range(3)])
    if rng.random() < 0.5:
        t, want["/m:r"] = tags("m")
        ctx.ev(want["/m:r"] + " rpc")
        body += f" rpc r {{ {t} input {{ {node('/m:r/input', 'm', 3, True)} }} }}"
    imp = {m: f"import ietf-netconf-acm {{ prefix {px[m]['nacm']}; }} import fake {{ prefix {px[m]['fake']}; }} " for m in "mls"}
    texts = {"m": 'module m { yang-version 1.1; namespace "urn:m"; prefix m; ' + imp["m"] + "import l { prefix l; } include s; " + " ".join(groups["m"]) + body
             + " ".join(augs[::-1]) + "}",
             "l": 'module l { yang-version 1.1; namespace "urn:l"; prefix l; ' + imp["l"] + " ".join(groups["l"]) + "}",
             "s": "submodule s { yang-version 1.1; belongs-to m { prefix m; } " + imp["s"] + "import l { prefix l; } revision 2020-01-01; " + " ".join(groups["s"]) + "}"}
    d = ctx.tmpdir()
    for n, t in list(texts.items()) + [("ietf-netconf-acm@2018-02-14", NACM), ("fake", FAKE)]:
        with open(os.path.join(d, ("s@2020-01-01" if n == "s" else n) + ".yang"), "w") as f:
            f.write(t)
    lib = [{"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement", "submodule": [{"name": "s", "revision": "2020-01-01"}]},
           {"name": "l", "revision": "", "namespace": "urn:l", "conformance-type": "import"},
           {"name": "fake", "revision": "", "namespace": "urn:fake", "conformance-type": rng.choice(["implement", "import"])},
           {"name": "ietf-netconf-acm", "revision": "2018-02-14", "namespace": "urn:ietf:params:xml:ns:yang:ietf-netconf-acm",
            "conformance-type": rng.choice(["implement", "import"])}]
    rng.shuffle(lib)
    dm = DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": lib}}), (d,))
    for p, w in want.items():
        if p.endswith("/input"):
            continue
        sn = dm.get_schema_node(p)
        ctx.case([texts["m"], p], w != "none", f"{p}: {w}")
        if not ctx.check(sn is not None, "deny-missing", f"no schema node {p}", texts=texts):
            return
        if not ctx.check(sn.default_deny.name == w, "deny", f"default access of {p} is {sn.default_deny.name} instead of {w}", texts=texts):
            return


GROUPS = [Group("schema", case, 220, 4000), Group("deny", deny, 200, 2500)]
REQUIRE = {"properties compared": 100000, "extension statements": 1500, "digest objects": 2000, "nodes in operations": 2000, "all rpc": 8, "write container": 20, "none container": 40, "all leaf": 40,
           "all notification": 3, "all action": 3, "write list": 10}
