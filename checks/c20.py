"""C20: YANG library tools produce equivalent libraries."""
import contextlib
import importlib
import io
import json
import os
import re
import runpy
import subprocess
import sys

from vf.core import REPO, CaseTimeout, Group
from vf.gen import Profile, gen_model

c15 = importlib.import_module("checks.c15")

PROPERTY = "C20"
RULE = ("random RFC 8525 libraries (module sets shared by schemas and datastores, import-only modules that another set implements, submodules, features, "
        "deviations, locations), libraries with one defect, missing or unreadable files, and the libraries of random and revision-rich sets of modules are "
        "converted by the tool with random options, in the process of the check and in processes of its own; the result is compared with the mapping that "
        "follows from the two RFCs, and data models built from it with those built from the original library; mkylib.py is run on directories with the same "
        "modules; one evaluation = one run; non-trivial if several module sets, deviations, submodules or an error are involved")
ASSUMPTIONS = ["datastores other than those of ietf-datastores are not used: the tool knows only that module",
               "a schema without module sets may be reported as nonexistent"]
DS = ["running", "candidate", "startup", "operational", "intended", "conventional", "dynamic"]
YL = "ietf-yang-library:yang-library"
MS = "ietf-yang-library:modules-state"


def ietf():
    import yangson
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(yangson.__file__))), "yang-modules", "ietf")


class Out(io.StringIO):
    def close(self):
        pass


class Result:
    def __init__(self, code, out, err, exc=None):
        self.code, self.out, self.err, self.exc = code, out, err, exc


def inside(argv, env, cwd):
    from yangson.convert8525 import main
    old, oldenv, oldcwd = sys.argv, os.environ.get("YANG_MODPATH"), os.getcwd()
    so, se = Out(), Out()
    sys.argv = ["convert8525"] + argv
    os.environ.pop("YANG_MODPATH", None)
    os.environ.update(env)
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                code, exc = main(), None
            except SystemExit as e:
                code, exc = e.code, None
            except CaseTimeout:
                raise
            except BaseException as e:
                code, exc = 1, e
    finally:
        sys.argv = old
        os.chdir(oldcwd)
        os.environ.pop("YANG_MODPATH", None)
        if oldenv is not None:
            os.environ["YANG_MODPATH"] = oldenv
    return Result(0 if code is None else code, so.getvalue(), se.getvalue(), exc)


def outside(argv, env, cwd, tool=("-m", "yangson.convert8525")):
    import yangson
    e = {k: v for k, v in os.environ.items() if k != "YANG_MODPATH"}
    e.update(env, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(yangson.__file__))), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, *tool] + argv, capture_output=True, text=True, env=e, cwd=cwd, timeout=120)
    return Result(p.returncode, p.stdout, p.stderr)


def put(fn, data):
    with open(fn, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return fn


# -- documents

def ident(rng):
    return rng.choice(["m", "a", "b-c", "x.y", "_z", "Mod", "ietf-yang-types", "n1"]) + rng.choice(["", "", "1", "-2", ".3", "_4"])


def revision(rng):
    return f"20{rng.randrange(10, 14)}-0{rng.randrange(1, 4)}-{rng.randrange(10, 13)}"


def uri(rng, name):
    return rng.choice([f"urn:x:{name}", f"http://example.com/{name}?a=b&c", f"urn:caf\u00e9:{name}"])


def locations(rng, e):
    if rng.random() < 0.3:
        e["location"] = [f"http://example.com/{i}/{rng.randrange(100)}" for i in range(rng.choice([1, 1, 2, 3]))]


def submodules(rng, e):
    if rng.random() < 0.35:
        subs = {}
        for _ in range(rng.choice([1, 2, 3])):
            s = {"name": ident(rng) + "-s"}
            if rng.random() < 0.6:
                s["revision"] = revision(rng)
            locations(rng, s)
            subs[s["name"]] = s
        e["submodule"] = list(subs.values())


class Doc:
    """Contents of an RFC 8525 library."""

    def __init__(self, rng):
        self.rng = rng
        self.ns = {}
        # variants of implemented modules; within one schema a module has one variant
        self.variants = {}
        for _ in range(rng.choice([1, 2, 4, 6])):
            n = ident(rng)
            vs = self.variants.setdefault(n, [])
            e = {"name": n, "namespace": self.ns.setdefault(n, uri(rng, n))}
            if rng.random() < 0.7:
                e["revision"] = revision(rng)
            if rng.random() < 0.4:
                e["feature"] = rng.sample(["f", "g", "h.i", "j-k", "_l"], rng.choice([1, 2, 3]))
            submodules(rng, e)
            locations(rng, e)
            vs.append(e)
        # deviations as names of modules, resolved in the module set
        names = list(self.variants)
        for vs in self.variants.values():
            for e in vs:
                others = [x for x in names if x != e["name"]]
                if others and rng.random() < 0.35:
                    e["deviation"] = rng.sample(others, min(len(others), rng.choice([1, 1, 2])))
        self.sets = {}
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            self.sets[rng.choice(["set", "s", "common", "", "a b", "\u017elut\u00fd", "'", "x/y"]) + rng.choice(["", "", "1", "2"])] = self.modset()
        self.schemas = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice(["schema", "conf", "oper", "", "'q'", "\u010d", "a b"]) + rng.choice(["", "1", "2"])
            chosen, seen = [], {}
            for s in rng.sample(list(self.sets), len(self.sets)):
                m = self.sets[s]["module"]
                if rng.random() < 0.75 and all(seen.get(k, id(v)) == id(v) for k, v in m.items()):
                    seen.update((k, id(v)) for k, v in m.items())
                    chosen.append(s)
            self.schemas[n] = chosen
        self.datastores = {d: rng.choice(list(self.schemas)) for d in (["running"] if rng.random() < 0.8 else []) + rng.sample(DS, rng.choice([0, 1, 3]))}
        self.id = rng.choice(["", "x", "75a43df9bd56b92aacc156a2958fbe12312fb285", "\u4e2d", "a\nb"])

    def modset(self):
        rng = self.rng
        mods, todo = {}, [n for n in self.variants if rng.random() < 0.6]
        while todo:
            n = todo.pop()
            if n not in mods:
                mods[n] = rng.choice(self.variants[n])
                todo += mods[n].get("deviation", [])
        imp = {}
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            if rng.random() < 0.5:
                b = rng.choice(rng.choice(list(self.variants.values())))
                e = {k: b[k] for k in ("name", "namespace", "submodule", "location") if k in b}
                e["revision"] = b.get("revision", "") if rng.random() < 0.5 else rng.choice(["", revision(rng)])
            else:
                e = {"name": ident(rng), "revision": rng.choice(["", revision(rng), revision(rng)])}
                e["namespace"] = self.ns.setdefault(e["name"], uri(rng, e["name"]))
                submodules(rng, e)
                locations(rng, e)
            imp[e["name"], e["revision"]] = e
        return {"module": mods, "import-only-module": imp}

    def shuffled(self, e):
        """Entry with its members, and entries of lists ordered by system, in another order."""
        it = list(e.items())
        self.rng.shuffle(it)
        out = {}
        for k, v in it:
            if isinstance(v, list):
                v = self.rng.sample(v, len(v))
                v = [self.shuffled(x) if isinstance(x, dict) else x for x in v]
            out[k] = v
        return out

    def raw(self):
        rng = self.rng
        top = {"content-id": self.id}
        ms = []
        for n, s in self.sets.items():
            e = {"name": n}
            for k in s:
                if s[k]:
                    e[k] = list(s[k].values())
            ms.append(e)
        top["module-set"] = ms
        top["schema"] = [dict({"name": n}, **({"module-set": v} if v else {})) for n, v in self.schemas.items()]
        if self.datastores:
            top["datastore"] = [{"name": "ietf-datastores:" + n, "schema": v} for n, v in self.datastores.items()]
        doc = {YL: json.loads(json.dumps(self.shuffled(top)))}
        if rng.random() < 0.1:
            doc = dict([(MS, {"module-set-id": "old", "module": [
                {"name": "zz", "revision": "", "namespace": "urn:zz", "conformance-type": "implement"}]})], **doc)
        return doc

    def expected(self, schema):
        """Entries of the RFC 7895 library by name and revision."""
        out = {}
        for kind, conf in (("module", "implement"), ("import-only-module", "import")):
            for s in self.schemas[schema]:
                st = self.sets[s]
                for e in st[kind].values():
                    k = (e["name"], e.get("revision", ""))
                    x = out.setdefault(k, {"conformance-type": conf, "loc": set(), "sub": {}, "namespace": e["namespace"],
                                           "feature": sorted(e.get("feature", [])), "devs": [], "subs": []})
                    if x["conformance-type"] != conf:
                        continue
                    x["loc"] |= set(e.get("location", [None]))
                    subs = {}
                    for u in e.get("submodule", []):
                        subs[u["name"], u.get("revision", "")] = set(u.get("location", []))
                    x["subs"].append(subs)
                    x["devs"].append(sorted((d, st["module"][d].get("revision", "")) for d in e.get("deviation", [])))
        return out


def compare(doc, want, cid):
    """Difference between the converted document and the expected entries, or None."""
    if not isinstance(doc, dict) or set(doc) != {MS}:
        return f"top-level members {list(doc)}"
    st = doc[MS]
    if set(st) - {"module"} != {"module-set-id"}:
        return f"members {list(st)}"
    if st["module-set-id"] != cid:
        return f"module-set-id {st['module-set-id']!r}"
    seen = set()
    for e in st.get("module", []):
        k = (e.get("name"), e.get("revision"))
        if k not in want:
            return f"unexpected entry {k}"
        if k in seen:
            return f"two entries {k}"
        seen.add(k)
        w = want[k]
        for m in ("conformance-type", "namespace"):
            if e.get(m) != w[m]:
                return f"{m} of {k}: {e.get(m)!r}, expected {w[m]!r}"
        if sorted(e.get("feature", [])) != w["feature"]:
            return f"feature of {k}: {e.get('feature')}"
        if sorted((d["name"], d["revision"]) for d in e.get("deviation", [])) not in w["devs"] or any(set(d) != {"name", "revision"} for d in e.get("deviation", [])):
            return f"deviation of {k}: {e.get('deviation')}, expected {w['devs']}"
        if e.get("schema") not in w["loc"]:
            return f"schema of {k}: {e.get('schema')}"
        subs = {(s["name"], s["revision"]): s for s in e.get("submodule", [])}
        if not any(set(x) == set(subs) and len(subs) == len(e.get("submodule", [])) and
                   all(s.get("schema") in x[n] if x[n] else "schema" not in s for n, s in subs.items()) for x in w["subs"]):
            return f"submodule of {k}: {e.get('submodule')}, expected {w['subs']}"
        if set(e) - {"name", "revision", "conformance-type", "namespace", "feature", "deviation", "schema", "submodule"}:
            return f"members of {k}: {sorted(e)}"
    if seen != set(want):
        return f"missing entries {sorted(set(want) - seen)}"
    return None


def opt(rng, short, long, val):
    k = rng.random()
    return [short, val] if k < 0.3 and val[:1] != "-" else [short + val] if k < 0.5 and val else [long + "=" + val]


def path(rng, base):
    d = ietf()
    k = rng.random()
    if k < 0.1:
        return [], {}, d
    p = ":".join(rng.choice([[d], ["/nonexistent", d], [d, base]]))
    if k < 0.4:
        return [], {"YANG_MODPATH": p}, base
    return opt(rng, "-p", "--path", p), ({"YANG_MODPATH": "/nonexistent"} if rng.random() < 0.3 else {}), base


def run(ctx, rng, what, argv, env, cwd, want, det, far=0.03):
    ext = rng.random() < far
    if ext and rng.random() < 0.5 and all(a.isascii() for a in argv):
        env = dict(env, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        ctx.ev("runs in a locale without UTF-8")
    r = (outside if ext else inside)(argv, env, cwd)
    ctx.ev("runs in own processes" if ext else "runs")
    ctx.ev(f"{what}: status {want}")
    det = dict(det, arguments=argv, environment=env, status=r.code, stdout=r.out[-1500:], stderr=r.err[-3000:])
    if not ctx.check(r.exc is None and "Traceback (most recent" not in r.err,
                     "traceback:" + (type(r.exc).__name__ if r.exc else r.err.strip().rpartition("\n")[2].partition(":")[0]),
                     lambda: f"{what}: traceback: {r.exc!r} {r.err[-600:]}", **det):
        return None
    ok = r.code in want if isinstance(want, tuple) else r.code == want
    if not ctx.check(ok, f"status:{what}:{want}", f"{what}: status {r.code} instead of {want} ({r.err[-300:]!r})", **det):
        return None
    if r.code:
        ctx.check(r.err.strip() != "", "no-message:" + what, f"{what}: status {r.code} without a message", **det)
        ctx.check(r.out == "", "output-with-error:" + what, f"{what}: output with status {r.code}: {r.out[:200]}", **det)
    else:
        ctx.check(r.err == "", "message:" + what, f"{what}: message with status 0: {r.err[:200]}", **det)
    return r


def converted(ctx, rng, what, fn, base, sel, det, want=0, far=0.03):
    """Converted document, or None."""
    args, env, cwd = path(rng, base)
    args += sel
    out = None
    if rng.random() < 0.5:
        out = os.path.join(base, "out.json")
        if os.path.exists(out):
            os.remove(out)
        args += opt(rng, "-o", "--output", out)
    i = rng.choice([0, len(args)])
    args[i:i] = [fn]
    r = run(ctx, rng, what, args, env, cwd, want, det, far)
    if r is None or r.code:
        return None
    text = r.out
    if out is not None:
        ctx.check(text == "", "output-twice", f"{what}: printed although -o is given: {text[:200]}", **det)
        with open(out, encoding="utf-8") as f:
            text = f.read()
    try:
        return json.loads(text)
    except ValueError as e:
        ctx.fail("not-json", f"{what}: output isn't JSON: {e}: {text[:300]!r}", **det)
    return None


def mapping(ctx, rng):
    d = Doc(rng)
    base = ctx.tmpdir()
    for _ in range(3):
        raw = d.raw()
        text = json.dumps(raw, ensure_ascii=rng.random() < 0.5)
        fn = put(os.path.join(base, "in.json"), text)
        far = 0.03 if text.isascii() else 0.15
        if rng.random() < 0.5:
            n = rng.choice(list(d.schemas) * 3 + ["nosuch", "ietf-yang-library:schema", "Schema"])
            sel, schema = opt(rng, "-s", "--schema", n), n if n in d.schemas else None
        else:
            n = rng.choice(list(d.datastores) * 3 + DS[:3] + ["nosuch", "ietf-datastores:running", "", "datastore"])
            sel, schema = opt(rng, "-d", "--datastore", n), d.datastores.get(n)
            if n == "running" and rng.random() < 0.7:
                sel = []
        det = {"document": raw}
        want = 0 if schema is not None else 2
        if schema is not None and not d.schemas[schema]:
            want = (0, 2)
        deep = schema is not None and (len(d.schemas[schema]) > 1 or any("deviation" in e for s in d.schemas[schema] for e in d.sets[s]["module"].values()))
        ctx.case(text + str(sel), want != 0 or deep, f"mapping {sel}: {text[:300]}")
        res = converted(ctx, rng, "mapping", fn, base, sel, det, want, far)
        if res is None:
            continue
        exp = d.expected(schema)
        ctx.ev("module sets merged", len(d.schemas[schema]))
        ctx.ev("entries", len(exp))
        ctx.ev("entries with deviations", sum(1 for e in exp.values() if any(e["devs"])))
        ctx.ev("entries with submodules", sum(1 for e in exp.values() if any(e["subs"])))
        both = {(e["name"], e.get("revision", "")) for s in d.schemas[schema] for e in d.sets[s]["module"].values()} & {
            k for s in d.schemas[schema] for k in d.sets[s]["import-only-module"]}
        ctx.ev("entries both implemented and imported", len(both))
        x = compare(res, exp, d.id)
        ctx.check(x is None, "mapping:" + re.sub(r"[ :].*", "", x or ""), f"{sel}: {x}", result=res, **det)


# -- defects

def entries(top, kind):
    return [e for s in top.get("module-set", []) for e in s.get(kind, [])]


def damage(rng, raw):
    """Make the document invalid; None if that is impossible for the kind of defect."""
    top = raw[YL]
    k = rng.choice(["content-id", "namespace", "name", "datastore-schema", "dangling-deviation", "dangling-set", "dangling-schema", "datastore-name",
                    "revision", "feature", "duplicate", "duplicate-set", "unknown", "type", "no-library", "top", "import-revision", "annotation"])
    mods, imps = entries(top, "module"), entries(top, "import-only-module")
    if k == "content-id":
        del top["content-id"]
    elif k in ("namespace", "name"):
        if not mods + imps:
            return None
        del rng.choice(mods + imps)[k]
    elif k == "datastore-schema":
        if "datastore" not in top:
            return None
        del rng.choice(top["datastore"])["schema"]
    elif k == "dangling-deviation":
        if not mods:
            return None
        rng.choice(mods)["deviation"] = ["no-such-module"]
    elif k == "dangling-set":
        rng.choice(top["schema"])["module-set"] = ["no such set"]
    elif k == "dangling-schema":
        if "datastore" not in top:
            return None
        rng.choice(top["datastore"])["schema"] = "no such schema"
    elif k == "datastore-name":
        if "datastore" not in top:
            return None
        rng.choice(top["datastore"])["name"] = rng.choice(["running", "ietf-datastores:nosuch", "ietf-datastores:datastore", "nosuch:running", 1, ""])
    elif k == "revision":
        if not mods:
            return None
        rng.choice(mods)["revision"] = rng.choice(["", "2020", "2020-1-1", 2020, "2020-01-01\n", None])
    elif k == "import-revision":
        if not imps:
            return None
        e = rng.choice(imps)
        if rng.random() < 0.5:
            e["revision"] = rng.choice(["2020", " ", 1])
        else:
            del e["revision"]
    elif k == "feature":
        if not mods:
            return None
        rng.choice(mods)["feature"] = rng.choice(["f", [1], [""], ["1a"], ["a b"], {}])
    elif k == "duplicate":
        ls = [s[x] for s in top.get("module-set", []) for x in ("module", "import-only-module") if s.get(x)]
        if not ls:
            return None
        m = rng.choice(ls)
        m.append(json.loads(json.dumps(rng.choice(m))))
    elif k == "duplicate-set":
        x = rng.choice(["module-set", "schema", "datastore"])
        if not top.get(x):
            return None
        top[x].append(json.loads(json.dumps(rng.choice(top[x]))))
    elif k == "unknown":
        rng.choice([top, *mods, *imps, *top["schema"]])[rng.choice(["nosuch", "conformance-type", "ietf-yang-library:nosuch", "x:name"])] = "x"
    elif k == "type":
        return k, {YL: rng.choice([[], "x", None, 1, dict(top, **{"module-set": {}}), dict(top, **{"schema": ["x"]}), dict(top, **{"content-id": 1})])}
    elif k == "no-library":
        return k, rng.choice([{}, {MS: {"module-set-id": "x"}}])
    elif k == "top":
        return k, rng.choice([[], "x", None, 1, [raw], dict(raw, **{"ietf-interfaces:interfaces": {}}), dict(raw, nosuch=1), {"yang-library": top}])
    elif k == "annotation":
        top["@nosuch"] = {"a:b": 1}
    return k, raw


def defects(ctx, rng):
    d = Doc(rng)
    base = ctx.tmpdir()
    sel = lambda: opt(rng, "-s", "--schema", rng.choice(list(d.schemas)))
    for _ in range(3):
        k = rng.choice(["document"] * 5 + ["input", "output", "path"])
        raw = d.raw()
        fn = os.path.join(base, "in.json")
        det = {}
        if k == "document":
            x = damage(rng, raw)
            if x is None:
                continue
            kind, doc = x
            put(fn, json.dumps(doc, ensure_ascii=rng.random() < 0.5))
            ctx.case(json.dumps(doc), True, f"defect {kind}")
            ctx.ev("defect " + kind)
            converted(ctx, rng, "defect:" + kind, fn, base, sel(), {"document": doc}, 1)
        elif k == "input":
            x = rng.choice(["missing", "dir", b"", b"{", b"\xff\xfe{}", b"[1,]", b"nothing", b"{'a': 1}", b'{"a": ' + b"1" * 5000 + b"}", b"[" * 200000, b"{}x"])
            fn = base if x == "dir" else os.path.join(base, "no") if x == "missing" else put(fn, x)
            ctx.case(str(x)[:100], True, f"input {x!r:.30}")
            converted(ctx, rng, "input", fn, base, sel(), det, 1)
        elif k == "output":
            put(fn, json.dumps(raw))
            args, env, cwd = path(rng, base)
            args += sel() + opt(rng, "-o", "--output", rng.choice([base, os.path.join(base, "no", "out"), os.path.join(fn, "x")])) + [fn]
            ctx.case(str(args), True, "output that can't be written")
            run(ctx, rng, "output", args, env, cwd, (3,) if all(d.schemas.values()) else (2, 3), {"document": raw})
        else:
            put(fn, json.dumps(raw))
            ctx.case("path", True, "path without the modules")
            run(ctx, rng, "path", opt(rng, "-p", "--path", rng.choice(["/nonexistent", base, ""]) + ":/nonexistent") + [fn], {}, base, 1, {"document": raw})


# -- data models

def to8525(lib, rng, extra=()):
    """RFC 8525 library with the same modules: document and selection."""
    sets = {f"set{i}": {} for i in range(rng.choice([1, 2, 3]))}
    rev = {}
    for e in lib:
        for s in rng.sample(list(sets), rng.choice([1, 1, min(2, len(sets))])):
            x = {"name": e["name"], "namespace": e["namespace"]}
            imp = e["conformance-type"] == "import"
            if e["revision"] or imp:
                x["revision"] = e["revision"]
            if e.get("submodule"):
                x["submodule"] = [dict({"name": u["name"]}, **({"revision": u["revision"]} if u["revision"] else {})) for u in e["submodule"]]
            if e.get("feature") and not imp:
                x["feature"] = e["feature"]
            sets[s].setdefault("import-only-module" if imp else "module", []).append(x)
    used = list(sets)
    if rng.random() < 0.5:              # a set that belongs to another schema
        sets["other"] = {"module": [{"name": "other-module", "namespace": "urn:other"}]}
        if lib and rng.random() < 0.7:
            e = rng.choice(lib)
            sets["other"]["module"].append({"name": e["name"], "namespace": e["namespace"], "revision": "1999-01-01"})
    for s in sets.values():
        for k in s:
            rng.shuffle(s[k])
            if k == "module" and len(s[k]) > 1 and rng.random() < 0.4:
                rev.setdefault(s[k][0]["name"], s[k][1]["name"])
    top = {"content-id": "vf", "module-set": [dict({"name": n}, **s) for n, s in sets.items()],
           "schema": [{"name": "main", "module-set": rng.sample(used, len(used))}] + ([{"name": "oth", "module-set": ["other"]}] if "other" in sets else []),
           "datastore": [{"name": "ietf-datastores:running", "schema": "main"}]}
    rng.shuffle(top["module-set"])
    rng.shuffle(top["schema"])
    return {YL: top}


def outcome(js, dirs):
    from yangson import DataModel
    try:
        dm = DataModel(js, tuple(dirs))
        return dm.schema_digest(), dm.ascii_tree(), sorted(dm.schema_data.identity_adjs), sorted((k, sorted(v.features)) for k, v in dm.schema_data.modules.items())
    except CaseTimeout:
        raise
    except Exception as e:
        return type(e).__name__, str(e)


def modules(ctx, rng):
    """Random modules in a directory: library entries, directories and texts."""
    if rng.random() < 0.5:
        m = gen_model(rng, Profile(depth=2, width=3, typedefs=0.4, leafref=0.1, augment=2, ops=0.3, rpc=0.4))
        d = ctx.tmpdir()
        m.write(d, rng)
        return m.yang_library()[MS]["module"], [d], m.text()
    w = c15.World(rng)
    dirs = w.write(ctx, decoys=False) or w.dirs
    return w.library()[MS]["module"], dirs, None


def models(ctx, rng):
    lib, dirs, text = modules(ctx, rng)
    for e in lib:
        if e["conformance-type"] == "import":
            e.pop("feature", None)      # there are none in RFC 8525
    want = outcome(json.dumps({MS: {"module-set-id": "vf", "module": lib}}), dirs)
    base = ctx.tmpdir()
    for _ in range(2):
        doc = to8525(lib, rng)
        fn = put(os.path.join(base, "in.json"), json.dumps(doc))
        ctx.case(json.dumps(doc), True, f"model of {len(lib)} modules")
        det = {"document": doc, "text": text}
        res = converted(ctx, rng, "model", fn, base, rng.choice([[], ["-s", "main"], ["-d", "running"]]), det)
        if res is None:
            continue
        got = outcome(json.dumps(res), dirs)
        ctx.ev("models compared")
        ctx.ev("models: " + (want[0] if len(want) == 2 else "built"))
        ctx.check(got[0] == want[0] if len(want) == 2 else got == want, "model", f"model from the converted library differs: {str(got)[:300]} and {str(want)[:300]}", result=res, **det)


# -- mkylib.py

def tool(argv, cwd):
    """mkylib.py in this process."""
    fn = os.path.join(os.path.dirname(os.path.dirname(ietf())), "tools", "python", "mkylib.py")
    old = sys.argv
    so, se = Out(), Out()
    sys.argv = [fn] + argv
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                runpy.run_path(fn, run_name="__main__")
                code, exc = 0, None
            except SystemExit as e:
                code, exc = e.code, None
            except CaseTimeout:
                raise
            except BaseException as e:
                code, exc = 1, e
    finally:
        sys.argv = old
    return Result(0 if code is None else code, so.getvalue(), se.getvalue(), exc)


NODES = ["container x{n};", "leaf x{n} {{ type int8; }}", "leaf-list x{n} {{ type int8; }}", "list x{n} {{ key k; leaf k {{ type int8; }} }}", "choice x{n} {{ leaf y{n} {{ type int8; }} }}",
         "anydata x{n};", "anyxml x{n};", "rpc x{n};", "notification x{n};", "identity i{n};", "uses {p}:g0;"]
OTHERS = ["typedef t{n} {{ type int8; }}", "grouping g{n} {{ leaf x {{ type int8; }} }}", "extension e{n};", "{p}:e0 x;", "{p}:feature f{n};", "{p}:container x;", "{p}:revision 2099-01-01;",
          "{p}:include nosuch;", "{p}:namespace 'urn:wrong';", "// leaf x {{ }}"]


def directory(ctx, rng):
    """Directory with random modules: expected entries (None: the tool has to fail), and whether the data model can be built."""
    d = ctx.tmpdir()
    want, bad = {}, None
    subs = 0
    for i in range(rng.choice([1, 2, 3, 5])):
        name = f"m{i}" + rng.choice(["", "-x", ".y"])
        revs = rng.choice([[""], [""], ["2020-01-01"], ["2020-01-01", "2019-05-05"]]) if i else ["2020-01-01"]
        nodes = False
        feats, smods = [], []
        texts = []
        for j in range(rng.choice([1, 1, 2, 3])):
            n = [0]
            own = rng.sample(["2010-01-01", "2015-10-10", "2021-02-03"], rng.choice([0, 1, 2])) if j else None
            prefix = rng.choice(["p", "q", name])
            body = []
            for _ in range(rng.choice([0, 1, 2, 4])):
                n[0] += 1
                k = NODES if rng.random() < 0.25 else OTHERS
                t = rng.choice(k)
                nodes = nodes or k is NODES
                body.append(t.format(n=f"{i}-{j}-{n[0]}", p=prefix) + "\n")
            for _ in range(rng.choice([0, 0, 1, 2])):
                n[0] += 1
                feats.append(f"f{i}-{j}-{n[0]}")
                body.append(f"feature {feats[-1]};\n")
            rng.shuffle(body)
            texts.append([prefix, own, body])
        texts[0][2] += ["grouping g0 { }", "extension e0 { argument a; }"] + [f"extension {k} {{ argument a; }}" for k in ("feature", "container", "revision", "include", "namespace")]
        main = texts[0]
        inc = []
        for j, (prefix, own, body) in enumerate(texts[1:], 1):
            sn = f"s{i}-{j}"
            own = sorted(own, reverse=True)
            if rng.random() < 0.3:
                rng.shuffle(own)
            rev = max(own, default="")
            x = rng.random()
            fault = None
            if bad is None and x < 0.05:
                bad = fault = rng.choice(["missing", "mismatch"])
            if fault == "mismatch":
                inc.append(f"include {sn} {{ revision-date 1999-01-01; }}\n")
            else:
                inc.append(f"include {sn}" + (f" {{ revision-date {rev}; }}" if rev and x < 0.5 else ";") + "\n")
            if fault != "missing":
                put(os.path.join(d, f"{sn}@{rev}.yang" if rev and rng.random() < 0.7 else f"{sn}.yang"),
                    f"submodule {sn} {{ yang-version 1.1; belongs-to {name} {{ prefix {prefix}; }}\n" + "".join(f"revision {v};" for v in own) + "".join(body) + "}\n")
            smods.append((sn, rev))
        for rev in revs:
            old = rng.sample(["2001-01-01", "2002-02-02"], rng.choice([0, 1, 2])) if rev else []
            rs = [rev] + old if rev else []
            if rng.random() < 0.3:
                rng.shuffle(rs)
            put(os.path.join(d, f"{name}@{rev}.yang" if rev and (len(revs) > 1 or rng.random() < 0.7) else f"{name}.yang"),
                f"// \u017elu\u0165\nmodule {name} {{ yang-version 1.1; namespace 'urn:' + \"{name}\"; prefix {main[0]};\n" + "".join(inc) + "".join(f"revision {v} {{ description x; }}" for v in rs)
                + "".join(main[2]) + "}\n")
            want[name, rev] = {"namespace": "urn:" + name, "feature": sorted(feats), "submodule": sorted(smods), "conformance-type": "implement" if nodes else "import"}
            if nodes and len(revs) > 1:
                subs = 1
    put(os.path.join(d, rng.choice(["README", "x.yin", "lib.json", ".yang~"])), b"\xff not yang")
    return d, None if bad else want, not subs


def mkylib(ctx, rng):
    d, want, buildable = directory(ctx, rng)
    r = tool([d], d)
    det = {"files": {f: open(os.path.join(d, f), "rb").read().decode(errors="replace") for f in sorted(os.listdir(d))}, "status": r.code, "stdout": r.out, "stderr": r.err[-2000:]}
    ctx.case(json.dumps(det["files"]), True, f"directory with {len(det['files'])} files")
    ctx.ev("directories: " + ("incomplete" if want is None else "complete"))
    if not ctx.check(r.exc is None, "mkylib-exception", f"mkylib: {r.exc!r}", **det):
        return
    if want is None:
        ctx.check(r.code == 1 and r.err.strip() and not r.out, "mkylib-incomplete", f"mkylib: status {r.code}, output {r.out[:100]!r} for a missing submodule", **det)
        return
    if not ctx.check(r.code == 0 and not r.err, "mkylib-status", f"mkylib: status {r.code} ({r.err[:200]})", **det):
        return
    got = {}
    doc = json.loads(r.out)
    for e in doc[MS]["module"]:
        got[e["name"], e["revision"]] = {"namespace": e["namespace"], "feature": sorted(e.get("feature", [])), "conformance-type": e["conformance-type"],
                                         "submodule": sorted((s["name"], s["revision"]) for s in e.get("submodule", []))}
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        diff = [x for x in (b or {}) if not a or a[x] != b[x]] if b else ["unexpected"]
        ctx.check(not diff, "mkylib:" + ",".join(diff), f"mkylib: entry {k}: {a}, expected {b}", **det)
    ctx.check(len(doc[MS]["module"]) == len(want), "mkylib-entries", "mkylib: several entries for one module", **det)
    if buildable:
        o = outcome(r.out, [d])
        ctx.ev("models from mkylib")
        ctx.check(len(o) > 2, "mkylib-model", f"mkylib: data model can't be built: {o}", **det)


# -- tools/xslt/hello2yanglib.xsl ----------------------------------------------
NC = "urn:ietf:params:xml:ns:netconf:base:1.0"
YLIB = "urn:ietf:params:xml:ns:yang:ietf-yang-library"
CAPS = ["urn:ietf:params:netconf:base:1.0", "urn:ietf:params:netconf:base:1.1", "urn:ietf:params:netconf:capability:candidate:1.0",
        "urn:ietf:params:netconf:capability:with-defaults:1.0?basic-mode=explicit&also-supported=report-all,trim",
        "urn:ietf:params:netconf:capability:url:1.0?scheme=http,ftp", "http://example.com/caps?version=1"]


def hello(ctx, rng):
    """The stylesheet that makes a YANG library from a NETCONF hello message."""
    from lxml import etree
    from xml.sax.saxutils import escape
    caps, want = rng.sample(CAPS, rng.randint(1, len(CAPS))), []
    for i in range(rng.randint(0, 6)):
        name, rev = ident(rng), rng.choice([None, revision(rng)])
        ns = rng.choice([f"urn:x:{i}", f"http://example.com/{i}/yang", f"urn:module:{i}", f"tag:revision.example,2020:{i}"])
        feats = [ident(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
        pars = [f"module={name}"] + ([f"revision={rev}"] if rev else []) + ([f"features={','.join(feats)}"] if feats or rng.random() < 0.1 else [])
        if rng.random() < 0.2:
            pars.append(f"deviations={ident(rng)}")
        rng.shuffle(pars)
        caps.append(ns + "?" + "&".join(pars))
        want.append({"name": [name], "revision": [rev or ""], "namespace": [ns], "feature": feats, "conformance-type": ["implement"]})
    order = list(range(len(caps)))
    rng.shuffle(order)
    k = len(caps) - len(want)
    want = [want[i - k] for i in order if i >= k]
    pre = rng.choice(["", "nc:", "n1:"])
    gap = rng.choice(["", "", "\n", "\n  "])
    text = f'<{pre}hello xmlns{":" + pre[:-1] if pre else ""}="{NC}"><{pre}capabilities>' + gap
    for i in order:
        sp = rng.choice(["", "", "\n      ", " "])
        text += f"<{pre}capability>{sp}{escape(caps[i])}{sp}</{pre}capability>{gap}"
    text += f"</{pre}capabilities>" + rng.choice(["", f"<{pre}session-id>4</{pre}session-id>"]) + f"</{pre}hello>"
    det = {"hello": text}
    ctx.case(text, bool(want), text)
    try:
        xslt = etree.XSLT(etree.parse(os.path.join(REPO, "tools", "xslt", "hello2yanglib.xsl")))
        res = etree.fromstring(bytes(xslt(etree.fromstring(text.encode()))))
    except etree.LxmlError as e:
        ctx.fail("hello-exception", f"hello2yanglib: {e!r}", **det)
        return
    ctx.ev("hello messages")
    det["result"] = etree.tostring(res).decode()
    ms = res[0] if len(res) == 1 else res
    if not ctx.check(res.tag == f"{{{NC}}}data" and ms.tag == f"{{{YLIB}}}modules-state" and len(ms) and ms[0].tag == f"{{{YLIB}}}module-set-id" and ms[0].text
                     and all(x.tag == f"{{{YLIB}}}module" for x in ms[1:]), "hello-shape", "not a YANG library", **det):
        return
    got = []
    for m in ms[1:]:
        e = {"name": [], "revision": [], "namespace": [], "feature": [], "conformance-type": []}
        for x in m:
            e.setdefault(x.tag.replace(f"{{{YLIB}}}", ""), []).append(x.text or "")
        got.append(e)
        ctx.ev("modules from hello")
    ctx.check(got == want, "hello-modules", lambda: f"modules {got} instead of {want}", **det)


GROUPS = [Group("mapping", mapping, 240, 4000), Group("defects", defects, 200, 3000), Group("models", models, 120, 1500),
          Group("mkylib", mkylib, 250, 4000), Group("hello", hello, 250, 3000)]
REQUIRE = {"mapping: status 0": 100, "mapping: status 2": 100, "entries": 400, "entries both implemented and imported": 30, "entries with deviations": 60,
           "entries with submodules": 100, "models: built": 60, "input: status 1": 20, "output: status (3,)": 10, "runs in own processes": 15,
           "models from mkylib": 60, "directories: complete": 80, "directories: incomplete": 3, "hello messages": 200, "modules from hello": 400}
