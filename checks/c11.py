"""C11: results do not depend on incidental order, process or copy."""
import copy
import json
import os
import pickle
import subprocess
import sys

from vf import core
from vf.core import Group
from vf.gen import Profile
from vf.ops import Env, Scene

PROPERTY = "C11"
RULE = ("random models (submodules, augments of several modules and identities derived across modules included) and documents with a pool of operations; "
        "the pool is executed with the modules, submodules and features of the library in another order, with the members of all objects in another order, "
        "after deep copies and pickling of the data model and of single instances, and in processes with other hash seeds, from the files "
        "and from a pickled data model; one evaluation = one operation in one variant, compared with its outcome in the plain one; "
        "non-trivial if the operation yields more than an error")
ASSUMPTIONS = ["which of several errors is reported may depend on the order of modules and members",
               "XPath expressions whose value depends on document order by definition (recognised by the reference evaluator) are left out where "
               "the order of members differs"]


def profile(rng):
    return Profile(depth=rng.choice([2, 3]), width=rng.choice([3, 4]), default=0.4, leafref=0.1, when=0.12, must=0.08, typedefs=0.4, unions=0.15,
                   ops=0.2, rpc=0.3, unique=0.1, augment=3, anydata=0, rich=rng.random() < 0.5, submodule=0.6)


def verdict(out):
    return out if out[0] == "ok" else (out[0],) if out[0] == "failed" else out


def shuffled(v, rng):
    """The same JSON value with object members in another order."""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(v[k], rng) for k in ks}
    if isinstance(v, (list, tuple)):
        return type(v)(shuffled(x, rng) for x in v)
    return v


def bytag(x):
    """XML picture with elements of different names in a fixed order."""
    if isinstance(x, tuple) and len(x) == 4 and isinstance(x[3], tuple):
        return x[:3] + (tuple(sorted((bytag(y) for y in x[3]), key=lambda y: (y[0], y[1]))),)
    return x


def unordered(op, out):
    if out[0] == "ok":
        if op[0] == "xml":
            return ("ok", (bytag(out[1][0]), out[1][1]))
        if op[0] == "str":
            return ("ok", out[1][1:])
    return verdict(out)


def compare(ctx, sc, what, i, got, want, norm, **det):
    op = sc.ops[i]
    ctx.ev(what + ": compared")
    ctx.case([sc.json, what, repr(op), len(det)], want[0] == "ok" and want[1] is not None, f"{what}: {repr(op)[:200]}: {repr(want)[:200]}")
    return ctx.check(norm(op, got) == norm(op, want), f"{what}:{op[0]}", lambda: f"{what}: {repr(op)[:300]} gives {repr(got)[:500]} instead of {repr(want)[:500]}",
                     operation=op, outcomes=[want, got], documents=sc.docs, text=sc.m.text(), library=sc.json, **det)


def strict(op, out):
    return out


def lenient(op, out):
    return verdict(out)


def base(ctx, rng, n=70):
    sc = Scene(ctx, rng, profile(rng), nops=n)
    if not sc.ops:
        return None
    env = Env(sc, sc.model())
    sc.want = [sc.run(env, op) for op in sc.ops]
    return sc


def variant(ctx, sc, what, env, norm, idx=None, ops=None, **det):
    for i in idx if idx is not None else range(len(sc.ops)):
        got = sc.run(env, (ops or sc.ops)[i])
        if not compare(ctx, sc, what, i, got, sc.want[i], norm, **det):
            return


def library(ctx, rng):
    sc = base(ctx, rng)
    if sc is None:
        return
    for _ in range(4):
        lib = json.loads(sc.json)
        ms = lib["ietf-yang-library:modules-state"]["module"]
        rng.shuffle(ms)
        for m in ms:
            for k in ("submodule", "feature"):
                if k in m:
                    rng.shuffle(m[k])
        js = json.dumps(shuffled(lib, rng), indent=rng.choice([None, 2]))
        variant(ctx, sc, "library order", Env(sc, sc.model(js)), lenient, variant=js)


def members(ctx, rng):
    sc = base(ctx, rng)
    if sc is None:
        return
    dm = sc.model()
    idx = [i for i in range(len(sc.ops)) if sc.ops[i][0] != "xpath" or i in sc.stable]
    docs = sc.docs
    for _ in range(3):
        sc.docs = shuffled(docs, rng)
        ops = [shuffled(op, rng) for op in sc.ops]
        variant(ctx, sc, "member order", Env(sc, dm), unordered, idx, ops, permuted=sc.docs)
    sc.docs = docs


def copies(ctx, rng):
    sc = base(ctx, rng)
    if sc is None:
        return
    dm = sc.model()
    env = Env(sc, dm)
    used = rng.random() < 0.5
    if used:
        for op in rng.sample(sc.ops, len(sc.ops) // 3):
            sc.run(env, op)
    pic = env.picture()
    kinds = {"deep copy of the model": lambda: (copy.deepcopy(dm), None),
             "pickled model": lambda: (pickle.loads(pickle.dumps(dm)), None),
             "deep copies of all": lambda: copy.deepcopy((dm, (env.roots, env.nodes))),
             "pickled all": lambda: pickle.loads(pickle.dumps((dm, (env.roots, env.nodes)), rng.randrange(2, 6))),
             "deep copies of nodes": lambda: (dm, (env.roots, [copy.deepcopy(n) for n in env.nodes])),
             "pickled nodes": lambda: (dm, (env.roots, [pickle.loads(pickle.dumps(n)) for n in env.nodes])),
             "shallow copies": lambda: (copy.copy(dm), (env.roots, [copy.copy(n) for n in env.nodes]))}
    for what in rng.sample(sorted(kinds), 4):
        d, ns = kinds[what]()
        e = Env(sc, d, *(ns or ()))
        variant(ctx, sc, what, e, strict)
    ctx.check(env.picture() == pic and env.astray() is None, "original-changed", "an instance differs after its copies were used", documents=sc.docs, text=sc.m.text())
    variant(ctx, sc, "original after copying", env, strict)


def processes(ctx, rng):
    sc = base(ctx, rng)
    if sc is None:
        return
    scene = {k: sc.__dict__[k] for k in ("json", "dir", "docs", "places", "ops")}
    import yangson
    path = [os.path.dirname(os.path.dirname(os.path.abspath(core.__file__))), os.path.dirname(os.path.dirname(os.path.abspath(yangson.__file__)))]
    for v in range(3):
        pk = None
        if v == 2:
            env = Env(sc, sc.model())
            for op in rng.sample(sc.ops, len(sc.ops) // 2):
                sc.run(env, op)
            pk = pickle.dumps((env.dm, env.roots, env.nodes))
        order = list(range(len(sc.ops)))
        f = os.path.join(sc.dir, "spec")
        with open(f, "wb") as fp:
            pickle.dump({"scene": scene, "path": path, "pickled": pk, "order": order}, fp)
        seed = str(rng.randrange(1, 2 ** 32))
        e = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=os.pathsep.join(path), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-m", "vf.opsrun", f], capture_output=True, text=True, env=e, cwd=path[0], timeout=120)
        line = [x for x in p.stdout.splitlines() if x.startswith("R")]
        if p.returncode or not line:
            ctx.fail("process", f"another process fails: {p.stderr[-1500:]}", text=sc.m.text(), library=sc.json)
            return
        outs = pickle.loads(bytes.fromhex(line[-1][1:]))
        ctx.ev("processes")
        what = "process with a pickled model" if pk else "process"
        for i, got in zip(order, outs):
            if not compare(ctx, sc, what, i, got, sc.want[i], strict, hashseed=seed):
                return


GROUPS = [Group("library", library, 60, 700), Group("members", members, 60, 700), Group("copies", copies, 40, 500), Group("processes", processes, 40, 300)]
REQUIRE = {"library order: compared": 2000, "member order: compared": 2000, "processes": 60, "process: compared": 2000,
           "process with a pickled model: compared": 1000, "pickled model: compared": 500, "deep copy of the model: compared": 500,
           "pickled nodes: compared": 500, "deep copies of nodes: compared": 500, "original after copying: compared": 1000}
