"""Runner shared by all checks.

A check is a module checks/cNN.py with

    PROPERTY = "Cnn"
    RULE     = "how cases are made and what counts as non-trivial"
    GROUPS   = [Group(name, fn, quick=N, thorough=M), ...]
    REQUIRE  = {"event counter": minimum, ...}        (monitor must be reached)

fn(ctx, rng) executes one case, every random choice coming from rng; the rng of
a case is derived from (seed, property, group, index) so that any case can be
replayed alone.  Cases are spread over worker processes.  The verdict is three
valued: exit 0 = held on everything observed, exit 1 = violated, exit 2 =
inconclusive (harness broken or a monitor was not reached).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Group:
    def __init__(self, name, fn, quick, thorough=None, shard=True):
        self.name = name
        self.fn = fn
        self.n = {"quick": quick,
                  "thorough": thorough if thorough is not None else quick * 12}
        self.shard = shard


class Violation(Exception):
    def __init__(self, mech, msg, **detail):
        super().__init__(f"[{mech}] {msg}")
        self.mech = mech
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = json.dumps(obj, sort_keys=True, default=str)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).hexdigest()


class Ctx:
    """Accumulates what the monitors of one run observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.distinct = set()
        self.trivial = 0
        self.events = {}
        self.samples = []
        self.violations = []      # dicts
        self.known_hits = {}
        self.harness_errors = []
        self.where = None
        self.slowest = (0, "", 0)
        self.tmp = None

    # -- observation ------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        """Count one evaluated case; `key` identifies it."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(h64(key))
        else:
            self.trivial += 1
        if sample is not None and len(self.samples) < 4:
            s = sample if isinstance(sample, (str, dict, list)) else str(sample)
            if isinstance(s, str):
                s = s[:900]
            self.samples.append(s)

    def fail(self, mech, msg, **detail):
        """Report a violation of the property (does not raise)."""
        for kf in KNOWN.get(self.prop, []):
            if kf["mechanism"] == mech:
                self.known_hits[mech] = self.known_hits.get(mech, 0) + 1
                return
        self.ev("violations")
        if len(self.violations) < 40:
            self.violations.append(
                {"mechanism": mech, "message": str(msg)[:4000],
                 "where": self.where,
                 "detail": {k: _js(v) for k, v in detail.items()}})

    def check(self, cond, mech, msg="", **detail):
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def tmpdir(self):
        """Per-case scratch directory (removed after the case)."""
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vf-")
        return self.tmp

    def cleanup(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def safe_str(x):
    try:
        return str(x)
    except Exception as e:
        return f"<str() failed with {type(e).__name__}>"


def _js(v):
    try:
        json.dumps(v)
        s = v
    except (TypeError, ValueError):
        s = repr(v)
    if isinstance(s, str) and len(s) > 20000:
        s = s[:20000] + "..."
    return s


KNOWN = {}


def load_known():
    """known-findings.txt:  'finding: property=<id> mechanism=<key> <text>'"""
    KNOWN.clear()
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            mech = parts[2].split("=", 1)[1]
            KNOWN.setdefault(prop, []).append(
                {"mechanism": mech, "text": parts[3] if len(parts) > 3 else ""})


def run_case(ctx, grp, idx):
    ctx.where = {"group": grp.name, "index": idx}
    rng = random.Random(f"{ctx.seed}/{ctx.prop}/{grp.name}/{idx}")

    def onalarm(sig, frm):
        raise CaseTimeout()
    # CPU time of this process: not influenced by the load of the machine
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_WATCHDOG)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_WALL)
    t0 = time.process_time()
    try:
        grp.fn(ctx, rng)
    except Violation as e:
        ctx.fail(e.mech, e.msg, **e.detail)
    except Inconclusive as e:
        ctx.ev("inconclusive")
        if len(ctx.harness_errors) < 5:
            ctx.harness_errors.append(f"{grp.name}/{idx}: {e}")
    except CaseTimeout as e:
        tb = traceback.extract_tb(e.__traceback__)
        fn = [f.name for f in tb if "/yangson/" in f.filename]
        if fn and tb[-1].filename.find("/yangson/") >= 0 and \
                time.process_time() - t0 > CASE_WATCHDOG * 0.9:
            ctx.fail("hang:" + fn[-1], f"no result after {CASE_WATCHDOG} s of CPU time",
                     traceback="".join(traceback.format_tb(e.__traceback__)[-12:]))
        else:
            ctx.ev("case_timeouts")
            if len(ctx.harness_errors) < 5:
                ctx.harness_errors.append(f"{grp.name}/{idx}: watchdog")
    except (OSError, MemoryError) as e:
        ctx.ev("harness_errors")
        ctx.harness_errors.append(f"{grp.name}/{idx}: {e!r}\n" + traceback.format_exc())
    except Exception as e:
        # On a tree where the property holds no case ends this way.  Name the
        # mechanism by exception type and innermost yangson function.
        tb = traceback.extract_tb(e.__traceback__)
        fn = [f.name for f in tb if "/yangson/" in f.filename]
        if fn:
            ctx.fail(f"exception:{type(e).__name__}:{fn[-1]}",
                     f"unexpected {type(e).__name__}: {safe_str(e)}",
                     traceback=traceback.format_exc())
        else:
            ctx.fail(f"exception:{type(e).__name__}:harness",
                     f"observation could not be interpreted: {e!r}",
                     traceback=traceback.format_exc())
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        dt = time.process_time() - t0
        if dt > ctx.slowest[0]:
            ctx.slowest = (round(dt, 2), grp.name, idx)
        ctx.cleanup()


CASE_WATCHDOG = 100      # seconds of CPU
CASE_WALL = 300          # seconds, for cases that wait for other processes


def _worker(wid, nw, mod, prop, tier, seed, conn, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    ctx = Ctx(prop, tier, seed)
    try:
        sys.setrecursionlimit(6000)
        m = importlib.import_module(mod)
        if hasattr(m, "setup"):
            m.setup(ctx)
        cut = False
        for grp in m.GROUPS:
            if not grp.shard and wid != 0:
                continue
            idxs = range(grp.n[tier]) if not grp.shard else \
                range(wid, grp.n[tier], nw)
            for i in idxs:
                if time.time() > deadline:
                    cut = True
                    break
                ctx.ev("cases:" + grp.name)
                run_case(ctx, grp, i)
                if len(ctx.violations) >= 40:
                    break
        if cut:
            ctx.ev("deadline_cut")
        if hasattr(m, "teardown"):
            m.teardown(ctx)
    except BaseException as e:
        ctx.harness_errors.append("worker: " + repr(e) + "\n" +
                                  traceback.format_exc())
        ctx.ev("harness_errors")
    conn.send({"evaluations": ctx.evaluations, "distinct": ctx.distinct,
               "trivial": ctx.trivial, "events": ctx.events,
               "samples": ctx.samples, "violations": ctx.violations,
               "known": ctx.known_hits, "errors": ctx.harness_errors,
               "slowest": ctx.slowest})
    conn.close()


def selfcheck():
    """setup_cmd: the interpreter, the code under test and the checks load."""
    import yangson
    n = 0
    for fn in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if fn.startswith("c") and fn.endswith(".py"):
            importlib.import_module("checks." + fn[:-3])
            n += 1
    print(f"selfcheck: {n} checks load, yangson from {yangson.__file__}")


def main(argv):
    if argv[:1] == ["--selfcheck"]:
        selfcheck()
        return
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int,
                    default=int(os.environ.get("VF_WORKERS", "0")))
    ap.add_argument("--group")
    ap.add_argument("--index", type=int)
    ap.add_argument("-n", type=int, help="override the case count")
    args = ap.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    load_known()
    prop = args.prop
    modname = "checks." + prop.lower()
    t0 = time.time()
    # the code under test must come from the working tree
    import yangson
    yf = os.path.realpath(yangson.__file__)
    if not yf.startswith(os.path.realpath(REPO) + os.sep):
        print(f"INCONCLUSIVE: yangson imported from {yf}, not {REPO}")
        sys.exit(2)
    try:
        import yangson.__main__  # noqa: F401
        m = importlib.import_module(modname)
    except Exception:
        tbs = traceback.format_exc()
        print(tbs)
        print("INCONCLUSIVE: cannot import the code under test or the check")
        sys.exit(2)
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        args.seed, args.tier = rep["seed"], rep["tier"]
        args.group, args.index = rep["where"]["group"], rep["where"]["index"]
    if args.index is not None:
        ctx = Ctx(prop, args.tier, args.seed)
        sys.setrecursionlimit(6000)
        if hasattr(m, "setup"):
            m.setup(ctx)
        grp = [g for g in m.GROUPS if g.name == args.group][0]
        run_case(ctx, grp, args.index)
        for v in ctx.violations:
            print(json.dumps(v, indent=1)[:6000])
            tb = v["detail"].get("traceback")
            if tb:
                print(tb)
        print("events:", ctx.events, "known:", ctx.known_hits)
        print("errors:", "\n".join(ctx.harness_errors))
        print(f"replayed {args.group}/{args.index}: "
              f"{len(ctx.violations)} violation(s)")
        sys.exit(1 if ctx.violations else 0)
    if args.group:
        m.GROUPS = [g for g in m.GROUPS if g.name == args.group]
    if args.n:
        for g in m.GROUPS:
            g.n[args.tier] = args.n
    nw = args.workers or min(8, os.cpu_count() or 1)
    limit = 420 if args.tier == "quick" else 3000
    deadline = t0 + limit
    if getattr(m, "WORKERS", None):
        nw = min(nw, m.WORKERS)
    res = []
    if hasattr(m, "prepare"):
        m.prepare(args.tier, args.seed)
    # fork: workers inherit the imported code
    mpc = mp.get_context("fork")
    procs = []
    for w in range(nw):
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=_worker, args=(
            w, nw, modname, prop, args.tier, args.seed, b, deadline))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        try:
            if a.poll(max(1, deadline - time.time() + 150)):
                res.append(a.recv())
            else:
                res.append(None)
                p.kill()
        except EOFError:
            res.append(None)
        p.join(10)
    tot = Ctx(prop, args.tier, args.seed)
    died = 0
    for r in res:
        if r is None:
            died += 1
            continue
        tot.evaluations += r["evaluations"]
        tot.distinct |= r["distinct"]
        tot.trivial += r["trivial"]
        for k, v in r["events"].items():
            tot.ev(k, v)
        tot.samples += r["samples"][:2]
        tot.violations += r["violations"]
        tot.harness_errors += r["errors"]
        tot.slowest = max(tot.slowest, r["slowest"])
        for k, v in r["known"].items():
            tot.known_hits[k] = tot.known_hits.get(k, 0) + v
    wall = time.time() - t0
    problems = []
    if died:
        problems.append(f"{died} worker process(es) died")
    if tot.events.get("harness_errors"):
        problems.append("harness errors: " + tot.harness_errors[0][:2000])
    if args.n is None and not args.group:
        for k, mn in getattr(m, "REQUIRE", {}).items():
            got = tot.events.get(k, 0)
            if got < mn:
                problems.append(f"monitor counter '{k}' = {got} < {mn}")
        if len(tot.distinct) < 1:
            problems.append("no non-trivial case was observed")
    for k in ("inconclusive", "case_timeouts"):
        n = tot.events.get(k, 0)
        if n > max(3, tot.evaluations // 50):
            problems.append(f"{n} cases {k}: {tot.harness_errors[:2]}")
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": len(tot.distinct),
            "rule": m.RULE,
            "samples": tot.samples[:8] or ["(none)"],
            "trivial_cases": tot.trivial,
            "events_observed": dict(sorted(tot.events.items())),
            "known_findings_hit": tot.known_hits,
            "slowest_case": list(tot.slowest),
            "workers": nw,
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": tot.events.get("violations", 0),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    for kf in KNOWN.get(prop, []):
        hit = tot.known_hits.get(kf["mechanism"], 0)
        print(f"KNOWN-FINDING: property={prop} {kf['mechanism']} "
              f"{kf['text']} (observed {hit}x in this run)")
    if tot.violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        by_mech = {}
        for v in tot.violations:
            by_mech.setdefault(v["mechanism"], []).append(v)
        for n, (mech, vs) in enumerate(sorted(by_mech.items())[:12]):
            path = os.path.join(rdir, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": args.tier,
                           "seed": args.seed, "where": vs[0]["where"],
                           "mechanism": mech, "message": vs[0]["message"],
                           "detail": vs[0]["detail"],
                           "same_mechanism": len(vs)},
                          f, indent=1, default=str)
                f.write("\n")
            print(f"  {mech}: {vs[0]['message'][:600]}  "
                  f"[{vs[0]['where']}] x{len(vs)}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{prop} {args.tier} seed={args.seed}: VIOLATED "
              f"({tot.events.get('violations', 0)} observations, "
              f"{len(by_mech)} mechanisms) in {wall:.1f}s")
        sys.exit(1)
    if problems:
        for p in problems:
            print("INCONCLUSIVE:", p)
        sys.exit(2)
    print(f"{prop} {args.tier} seed={args.seed}: held on {tot.evaluations} "
          f"evaluations ({len(tot.distinct)} distinct non-trivial) "
          f"in {wall:.1f}s")
    sys.exit(0)
