#!/opt/venv/bin/python
"""Development tool: confirm a planted bug in a scratch copy and record it.

usage: plant.py SPEC.py [ID ...]     SPEC.py defines BUGS = [dict(id, property,
edits=[(file, old, new)], demo=python text, needs, breaks)]
       plant.py --check [ID ...]     run the checks against recorded bugs
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRELUDE = '''import json
import re
import shutil
import tempfile
from yangson import DataModel
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import *


def model(*texts, features=None, importonly=(), extra=None):
    """Data model from YANG texts."""
    d = tempfile.mkdtemp()
    try:
        mods = []
        for t in texts:
            kw, name = re.match(r"\\s*(module|submodule)\\s+([\\w.-]+)", t).groups()
            rev = (re.findall(r"revision\\s+([0-9-]+)", t) or [""])[0]
            with open(f"{d}/{name}" + (f"@{rev}" if rev else "") + ".yang", "w") as f:
                f.write(t)
            if kw == "submodule":
                mods[-1].setdefault("submodule", []).append({"name": name, "revision": rev})
                continue
            mods.append({"name": name, "revision": rev,
                         "namespace": re.search(r\'namespace\\s+"?([^";]+)\', t).group(1),
                         "feature": (features or {}).get(name, []),
                         "conformance-type": "import" if name in importonly else "implement"})
        lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": mods}}
        return DataModel(json.dumps(lib), (d,))
    finally:
        shutil.rmtree(d)


def valid(dm, raw, scope=ValidationScope.all, ctype=ContentType.config):
    try:
        dm.from_raw(raw).validate(scope, ctype)
    except YangsonException as e:
        return False
    return True


def mod(body, name="m", head=""):
    return (f\'module {name} {{ yang-version 1.1; namespace "urn:{name}"; prefix {name}; \'
            + head + body + "}")


'''


def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, text=True,
                              capture_output=True, timeout=t)
    except subprocess.TimeoutExpired as x:
        class R:
            returncode, stdout, stderr = 124, "timeout", ""
        return R()


def copy(bid):
    d = f"/tmp/sr-{bid}"
    shutil.rmtree(d, ignore_errors=True)
    sh(f"cp -a /repo {d}")
    return d


def stable(d):
    t = open("/opt/vp/test.sh").read().replace("PYTHONPATH=/opt/vp", f"PYTHONPATH={d}:/opt/vp")
    t = t.replace("/repo", d).replace("set -u", f"set -u\nexport PYTHONPATH={d}")
    ts = f"{d}.test.sh"
    open(ts, "w").write(t)
    sh(f"bash {ts} {d}.out.json")
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    o = json.load(open(f"{d}.out.json"))
    p = set(o["passed"]) if "passed" in o else {k for k, v in o.items() if v in ("passed", "pass", True)}
    for x in (ts, f"{d}.out.json"):
        os.remove(x)
    return sorted(b - p)


def demo(sd, d):
    return sh(f"bash {sd}/demo.sh", cwd=d, env={"PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1"}, t=300)


def check(prop, d, extra=""):
    r = sh(f"{PY} {HERE}/run.py {prop} --tier quick {extra}", cwd=HERE,
           env={"VF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "PYTHONPATH": d})
    got = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    mech = re.findall(r"^  (\S+):", r.stdout, re.M)
    return got, mech, r


def one(b):
    bid = b["id"]
    sd = os.path.join(HERE, "seeded", bid)
    d = copy(bid)
    msg = []
    try:
        os.makedirs(sd, exist_ok=True)
        with open(os.path.join(sd, "demo.py"), "w") as f:
            f.write((PRELUDE if b.get("prelude", True) else "") + b["demo"].lstrip("\n"))
        with open(os.path.join(sd, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        r = demo(sd, d)
        if r.returncode:
            msg.append("DEMO FAILS ON BASE: " + (r.stdout + r.stderr)[-1500:])
        for fn, old, new in b["edits"]:
            p = os.path.join(d, fn)
            s = open(p).read()
            if s.count(old) != 1:
                msg.append(f"EDIT: {fn}: {s.count(old)} occurrences of {old!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        r = demo(sd, d)
        if r.returncode == 0:
            msg.append("DEMO PASSES WITH PATCH")
        miss = stable(d)
        if miss:
            msg.append(f"TESTS FAIL: {miss[:5]}")
        ok = not msg
        if os.path.exists(os.path.join(HERE, "checks", b["property"].lower() + ".py")):
            got, mech, r = check(b["property"], d)
            msg.append(("caught: " if got else "MISSED: ") + ", ".join(mech[:6]) +
                       ("" if r.returncode in (0, 1) else r.stdout[-800:]))
        if not ok:
            shutil.rmtree(sd)
            msg.append("(discarded)")
        return bid, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(bid):
    sd = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = copy(bid)
    msg = []
    try:
        r = demo(sd, d)
        if r.returncode:
            msg.append("DEMO FAILS ON BASE " + (r.stdout + r.stderr)[-300:])
        if sh(f"git apply {sd}/patch.diff", cwd=d).returncode:
            return bid, ["PATCH DOES NOT APPLY"]
        r = demo(sd, d)
        if r.returncode == 0:
            msg.append("DEMO PASSES WITH PATCH")
        got, mech, r = check(meta["property"], d, "--workers 4")
        msg.append(("caught: " if got else f"MISSED({r.returncode}): ") + ", ".join(mech[:6]))
        return bid, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
        fn, items = recheck, ids
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        items = [b for b in g["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
        fn = one
    with ThreadPoolExecutor(3) as ex:
        for bid, msg in ex.map(fn, items):
            print(bid, "|", "; ".join(msg), flush=True)
