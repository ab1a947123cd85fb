"""C19: the command-line tool reports what the library finds."""
import contextlib
import importlib
import io
import json
import os
import pickle
import subprocess
import sys

from vf import dgen
from vf.core import CaseTimeout, Group
from vf.gen import Profile, gen_model
from vf.ops import Scene

c15 = importlib.import_module("checks.c15")

PROPERTY = "C19"
RULE = ("random models and documents (valid, mutated, of operations and notifications), libraries and modules with defects, and files that are missing, "
        "unreadable, no JSON or no pickle are given to the tool with random options, in the process of the check and in processes of its own; exit "
        "status, output and absence of tracebacks are compared with the documented status for what the library finds in the same input; "
        "one evaluation = one run; non-trivial if it isn't a success without output")
ASSUMPTIONS = ["usage errors (unknown options, wrong choices) have the status that Python's argparse gives them"]


class Result:
    def __init__(self, code, out, err, exc=None):
        self.code, self.out, self.err, self.exc = code, out, err, exc


def inside(argv, env, cwd):
    """main() with the arguments, in this process."""
    from yangson.__main__ import main
    old, oldenv, oldcwd = sys.argv, os.environ.get("YANG_MODPATH"), os.getcwd()
    so, se = io.StringIO(), io.StringIO()
    sys.argv = ["yangson"] + argv
    os.environ.pop("YANG_MODPATH", None)
    os.environ.update(env)
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                code, exc = main(), None
            except SystemExit as e:
                code, exc = e.code, None
            except CaseTimeout:
                raise
            except BaseException as e:
                code, exc = 1, e
    finally:
        sys.argv = old
        os.chdir(oldcwd)
        os.environ.pop("YANG_MODPATH", None)
        if oldenv is not None:
            os.environ["YANG_MODPATH"] = oldenv
    return Result(0 if code is None else code, so.getvalue(), se.getvalue(), exc)


def outside(argv, env, cwd):
    """The tool in a process of its own."""
    import yangson
    e = {k: v for k, v in os.environ.items() if k != "YANG_MODPATH"}
    e.update(env, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(yangson.__file__))), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "yangson"] + argv, capture_output=True, text=True, env=e, cwd=cwd, timeout=120)
    return Result(p.returncode, p.stdout, p.stderr)


def run(ctx, rng, what, argv, env, cwd, want, out, det, far=0.03):
    """Run the tool and compare with the expected status and output (None: any)."""
    ext = rng.random() < far
    if ext and rng.random() < 0.5:
        env = dict(env, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        ctx.ev("runs in a locale without UTF-8")
    r = (outside if ext else inside)(argv, env, cwd)
    ctx.ev("runs in own processes" if ext else "runs")
    ctx.ev(f"{what}: status {want}")
    ctx.case([argv, json.dumps(det, default=str)[:100000]], bool(want or out), f"{what}: {' '.join(argv)[:150]}: {want}")
    det = dict(det, arguments=argv, environment=env, status=r.code, stdout=r.out[-1500:], stderr=r.err[-3000:])
    if not ctx.check(r.exc is None and "Traceback (most recent" not in r.err, "traceback:" + (type(r.exc).__name__ if r.exc else r.err.strip().rpartition("\n")[2].partition(":")[0]),
                     lambda: f"{what}: traceback: {r.exc!r} {r.err[-600:]}", **det):
        return
    if not ctx.check(r.code == want or isinstance(want, tuple) and r.code in want, f"status:{what}:{want}", f"{what}: status {r.code} instead of {want} ({r.err[-300:]!r})", **det):
        return
    if want:
        ctx.check(r.err.strip() != "", "no-message:" + what, f"{what}: status {want} without a message", **det)
        ctx.check(r.out == "", "output-with-error:" + what, f"{what}: output with status {want}: {r.out[:200]}", **det)
    elif out is not None:
        ctx.check(r.out == out, "output:" + what, f"{what}: output differs from the library's: {r.out[:300]!r}", **det)
        ctx.check(r.err == "", "message:" + what, f"{what}: message with status 0: {r.err[:200]}", **det)


def model(js, dirs):
    from yangson import DataModel
    try:
        return DataModel(js, tuple(dirs))
    except CaseTimeout:
        raise
    except Exception as e:
        return e


WRONG = ["typedef zz { type zz; } leaf zy { type zz; }", "grouping zz { uses zz; } uses zz;",
         "leaf zz { type int8 { range x; } }", "leaf zz { type int8 { range 1..1000; } }", "leaf zz { type string { pattern '['; } }",
         "leaf zz { type string { length 3..2; } }", "leaf zz { type int8; default 1000; }", "leaf zz { type int8; must '('; }", "leaf zz { type int8; when 'a/'; }",
         "list zz { key nosuch; leaf a { type int8; } }", "list zz { key a; unique b/; leaf a { type int8; } }", "leaf zz { type leafref { path '../nosuch'; } }",
         "leaf zz { type leafref { path ''; } }", "leaf zz { }", "leaf { type int8; }", "augment /nosuch { leaf zz { type int8; } }", "uses;", "leaf zz { type; }",
         "deviation /nosuch { deviate not-supported; }", "deviation /nosuch { deviate wrong; }", "identity zz { base zz; }", "identity zz { base zy; } identity zy { base zz; }",
         "leaf zz { type identityref { base nosuch; } }", "leaf zz { type enumeration { enum a { value x; } } }", "leaf zz { type bits { bit a { position x; } } }",
         "leaf zz { type bits { bit a { position -1; } } }", "leaf zz { type decimal64 { fraction-digits 99; } }", "leaf zz { type decimal64; }",
         "leaf-list zz { type int8; min-elements x; }", "list zz { max-elements 0; }", "container zz { uses nosuch { refine x { default 1; } } }",
         "grouping zz { leaf a { type int8; } } uses zz { refine b { default 1; } }", "grouping zz { leaf a { type int8; } } uses zz { augment b { leaf c { type int8; } } }",
         "choice zz { default nosuch; case a { } }", "rpc zz { input { uses nosuch; } }", "nosuch zz;", "zz:nosuch x;", "container zz { config maybe; }",
         "leaf zz { type int8; status wrong; }", "leaf zz { type union; }", "leaf zz { type instance-identifier { require-instance x; } }", "container zz { action a { input { leaf x { type nosuch; } } } }",
         "leaf zz { mandatory x; type int8; }", "leaf zz { type int8; ordered-by x; }", "feature zz { if-feature zz; } container zy { if-feature zz; }"]


def opt(rng, short, long, val=None):
    k = rng.random()
    if val is None:
        return [rng.choice([short, long])]
    return [short, val] if k < 0.3 else [short + val] if k < 0.5 and val and val[0] != "-" else [long, val] if k < 0.75 else [long + "=" + val]


def finding(dm, raw, scope, ctype, sub):
    """What the library says about a document: None or an exception."""
    from yangson.enumerations import ContentType, ValidationScope
    from yangson.exceptions import YangsonException
    try:
        dm.from_raw(raw, sub).validate(ValidationScope[scope], ContentType[ctype])
    except YangsonException as e:
        return e
    return None


def library_args(rng, dirs, base, files):
    """Options and environment for the module path; sometimes relative to the current directory."""
    k = rng.random()
    extra = rng.choice([[], [], ["/nonexistent"], [os.path.join(base, "lib.json")]])
    ds = list(dirs) + extra
    if len(dirs) == 1 and k < 0.15:
        return [], {}, dirs[0]
    path = ":".join(ds)
    if k < 0.4:
        return [], {"YANG_MODPATH": path}, base
    return opt(rng, "-p", "--path", path), ({"YANG_MODPATH": "/nonexistent"} if rng.random() < 0.3 else {}), base


def put(base, name, data):
    fn = os.path.join(base, name)
    with open(fn, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return fn


def profile(rng):
    return Profile(depth=rng.choice([2, 3]), width=rng.choice([3, 4]), default=0.3, leafref=0.12, when=0.1, must=0.2, typedefs=0.4, unions=0.15,
                   ops=0.5, rpc=0.8, unique=0.15, augment=2, anydata=0.1)


def documents(ctx, rng):
    sc = Scene(ctx, rng, profile(rng), nops=0)
    if not sc.docs:
        return
    base = ctx.tmpdir()
    if rng.random() < 0.3:              # neither the library nor modules consist of ASCII characters only
        for fn in sorted(os.listdir(sc.dir)):
            if fn.endswith(".yang"):
                with open(os.path.join(sc.dir, fn), "ab") as f:
                    f.write("\n// \u017elu\u0165\u4e2d".encode())
        js = json.dumps(dict(json.loads(sc.json), **{"m:\u017e": "\u4e2d"}), ensure_ascii=False)
    else:
        js = sc.json
    dm = sc.model()
    lib = put(base, "lib.json", js)
    det = {"text": sc.m.text(), "library": js}
    pk = None
    ops = [x for x in sc.lib.root.walk() if x.parent is sc.lib.root and x.kw in ("rpc", "notification")]
    dg = dgen.DG(sc.lib, rng, density=0.8)
    cond = lambda: rng.choice(["syntax", "semantics", "all"]), lambda: rng.choice(["config", "nonconfig", "all"])
    for _ in range(16):
        k = rng.choice(["doc", "doc", "doc", "doc", "sub", "sub", "badsub", "nojson", "tree", "digest", "id", "dump", "none"])
        args, env, cwd = library_args(rng, [sc.dir], base, sc)
        infile, far = lib, 0.03
        if pk and rng.random() < 0.3:
            args, infile = [rng.choice(["-P", "--pickled"])], pk
        if k == "tree":
            nt = rng.random() < 0.5
            a = opt(rng, "-t", "--tree") + (opt(rng, "-n", "--no-types") if nt else [])
            want, out = 0, dm.ascii_tree(nt) + "\n"
        elif k == "digest":
            a, want, out = opt(rng, "-d", "--digest"), 0, dm.schema_digest() + "\n"
        elif k == "id":
            a, want, out = opt(rng, "-i", "--id"), 0, dm.module_set_id() + "\n"
        elif k == "none":
            a, want, out = [], 0, ""
        elif k == "dump":
            if rng.random() < 0.3:
                a, want, out = opt(rng, "-D", "--dump", rng.choice([base, os.path.join(base, "no", "dir"), os.path.join(lib, "x")])), 1, None
            else:
                fn = os.path.join(base, "pickled")
                a, want, out = opt(rng, "-D", "--dump", fn), 0, ""
        elif k == "nojson":
            x = rng.choice(["missing", "dir", b"", b"{", b"\xff\xfe{}", b"[1,]", b"nothing", b"{'a': 1}", b'{"a": ' + b"1" * 5000 + b"}",
                            b"[" * 200000, b"{}x"])
            fn = os.path.join(base, "missing") if x == "missing" else base if x == "dir" else put(base, "inst.json", x)
            a, want, out = opt(rng, "-v", "--validate", fn), 1, None
        else:
            sub = None
            if k == "doc" or not ops:
                raw = rng.choice(sc.docs)
                if rng.random() < 0.4:
                    d = dgen.mutate(json.loads(json.dumps(raw)), sc.lib.root, rng, dg)
                    raw = d[0] if isinstance(d, tuple) else d
                elif rng.random() < 0.08:
                    raw = rng.choice([[], None, 1, "x", True, [{}], {"": 1}, {"zz:a": 1}, {"a": 1}, {}, {"m-a:@": 1}, {"@": {}}])
                elif rng.random() < 0.2:
                    raw = dict(raw, **{rng.choice(["zz:y", "m-a:nosuch", "nosuch", "m-a:", ":x", "@x"]): rng.choice([1, None, {}, []])})
            else:
                o = rng.choice(ops)
                sub = f"{o.ns}:{o.name}"
                if o.kw == "rpc":
                    raw = {f"{o.ns}:{c.name}": dg.obj(c) for c in o.children if c.name in ("input", "output") and rng.random() < 0.7}
                else:
                    raw = dg.obj(o)
                if rng.random() < 0.3:
                    raw = rng.choice([sc.docs[0], {"x": 1}, [], {f"{o.ns}:input": 1}, dict(raw, **{"m-a:nosuch": 2})])
                if k == "badsub":
                    sub = rng.choice([o.name, f"{o.ns}:nosuch", f"nosuch:{o.name}", ":", "", f"{o.ns}:", ":" + o.name,
                                      next((f"{c.ns}:{c.name}" for c in sc.lib.root.children if c.kw not in ("rpc", "notification")), "zz:y")])
            scope, ctype = cond[0](), cond[1]()
            if rng.random() < 0.1 and isinstance(raw, dict):
                raw = dict(raw, **{rng.choice(["m-a:\u017elu\u0165", "\u017e", "@\u4e2d"]): 1})
            text = json.dumps(raw, ensure_ascii=rng.random() < 0.5)
            if not text.isascii():
                far = 0.3
                ctx.ev("documents with other than ASCII characters")
            fn = put(base, "inst.json", text)
            a = opt(rng, "-v", "--validate", fn)
            if scope != "all" or rng.random() < 0.3:
                a += opt(rng, "-s", "--scope", scope)
            if ctype != "all" or rng.random() < 0.3:
                a += opt(rng, "-c", "--ctype", ctype)
            if sub is not None:
                a += opt(rng, "-S", "--subschema", sub) if sub else ["-S", sub]
            e = finding(dm, raw, scope, ctype, sub or None)
            if sub == "" and e is None:
                e = None
            want, out = (0, "") if e is None else (3, None)
            ctx.ev("documents: " + ("valid" if e is None else type(e).__name__))
            det = dict(det, document=raw)
        args += a
        i = rng.choice([0, len(args)])
        args[i:i] = [infile]
        run(ctx, rng, k, args, env, cwd, want, out, det, far)
        if k == "dump" and want == 0 and os.path.exists(os.path.join(base, "pickled")):
            pk = os.path.join(base, "pickled")
            try:
                with open(pk, "rb") as f:
                    d = pickle.load(f)
                ok = d.schema_digest() == dm.schema_digest() and d.module_set_id() == dm.module_set_id() and d.ascii_tree() == dm.ascii_tree()
            except Exception as e:
                ok = repr(e)
            ctx.ev("dumped models loaded")
            ctx.check(ok is True, "dump", f"dumped model is not the original: {ok}", **det)


def libraries(ctx, rng):
    """Broken libraries, modules and input files."""
    w = c15.world(ctx, rng, False)
    base = ctx.tmpdir()
    for k in rng.sample(sorted(c15.DEFECTS), 5) + ["wrong"] * 6 + ["bytes", "file", "file"]:
        lib = json.loads(json.dumps(w.lib))
        saved = {}

        def edit(t, fun):
            fn = w.files[t.mid]
            with open(fn, errors="replace") as fp:
                s = fp.read()
            saved.setdefault(fn, s)
            with open(fn, "w") as fp:
                fp.write(fun(s))
        args, env, cwd = library_args(rng, w.dirs, base, w)
        try:
            if k == "file":
                x = rng.choice(["missing", "dir", b"\xff\xfe{}", b"", b"{]", b"[]", b"{}", b'{"a": ' + b"1" * 5000 + b"}", b"[" * 200000, "pmissing", "pdir", b"Pgarbage", b"P", b"P" + pickle.dumps([1]),
                                b"P" + pickle.dumps({"a": 1})[:-3], b"Pcposix\nnosuch\n.", b"P\x80\x05cnosuchmodule\nX\n.", b"P" + pickle.dumps(None)])
                if isinstance(x, bytes):
                    p = x[:1] == b"P"
                    fn = put(base, "lib.json", x[1:] if p else x)
                    # no JSON: both documented meanings apply
                    want = 1 if p or b"\xff" in x else 2 if x[:1] + x[1:2] in (b"[]", b"{}") else (1, 2)
                else:
                    p, want = x[0] == "p", 1
                    fn = base if "dir" in x else os.path.join(base, "missing")
                if p:
                    args = [rng.choice(["-P", "--pickled"])]
                det = {"file": repr(x)}
            else:
                if k in ("wrong", "bytes"):
                    x = rng.choice(WRONG)
                    t = c15.some(w, rng)
                    d = t and "x"
                    if d and k == "wrong":
                        edit(t, lambda s: c15.body(s, x))
                    elif d:
                        edit(t, lambda s: s)
                        with open(w.files[t.mid], "ab") as fp:
                            fp.write(b" // \xff\n")
                        x = "not UTF-8"
                    ctx.ev("wrong module: " + str(x))
                else:
                    d = c15.DEFECTS[k](w, lib, rng, edit)
                if d is None:
                    continue
                js = d[1] if isinstance(d, tuple) else json.dumps(lib)
                fn = put(base, "lib.json", js)
                m = model(js, w.dirs)
                want = 2 if isinstance(m, Exception) else 0
                ctx.ev("libraries: " + (type(m).__name__ if want else "accepted"))
                det = {"files": c15.everything(w), "library": js}
            op = rng.choice([[], ["-i"], ["-t"], ["-d"], ["-v", os.path.join(base, "missing")], ["-D", os.path.join(base, "out")]])
            if k == "wrong" and want == 0:      # accepted all the same: what can be done with it isn't defined
                op = rng.choice([[], ["-i"]])
            if want == 0 and op[:1] == ["-v"]:
                want = 1
            run(ctx, rng, "library" if k != "file" else "input file", args + op + [fn], env, cwd, want, None, det)
        finally:
            for fn, s in saved.items():
                with open(fn, "w") as fp:
                    fp.write(s)


def usage(ctx, rng):
    """Wrong usage, help and version."""
    base = ctx.tmpdir()
    for argv, want in ((["-h"], 0), (["--help"], 0), (["-V"], 0), ([], 2), (["-x", "f"], 2), (["-t", "-d", "f"], 2), (["-p", ".", "-P", "f"], 2), (["-s", "x", "f"], 2),
                       (["-c", "", "f"], 2), (["f", "g"], 2)):
        r = (inside if rng.random() < 0.9 else outside)(argv, {}, base)
        ctx.ev("usage")
        ctx.case(argv, True, f"usage {argv}: {want}")
        ctx.check(r.code == want and r.exc is None, "usage", f"{argv}: status {r.code}, expected {want}")
        if want == 0:
            ctx.check(r.out.strip() and not r.err, "usage-output", f"{argv}: nothing printed")


GROUPS = [Group("documents", documents, 120, 1500), Group("libraries", libraries, 120, 1500), Group("usage", usage, 4, 16)]
REQUIRE = {"runs": 1000, "runs in own processes": 30, "documents: valid": 80, "documents: SchemaError": 40, "documents: SemanticError": 20,
           "documents: RawMemberError": 40, "sub: status 0": 30, "sub: status 3": 30, "dumped models loaded": 30, "libraries: accepted": 100,
           "library: status 2": 300, "input file: status 1": 40, "dump: status 1": 10}
