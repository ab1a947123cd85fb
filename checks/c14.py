"""C14: concurrent use gives the results of sequential use."""
import os
import sys
import threading

from vf.core import Group
from vf.ops import Env, Scene

PROPERTY = "C14"
RULE = ("random models and documents; threads share one data model and the instances made from it and execute random operations of a pool "
        "(queries, lookups, types, defaults, validation, XPath, identifiers, editing, export) - in the first group under a seeded scheduler that "
        "hands over between any two lines of the library, in the second as the interpreter likes with the smallest switch interval; one evaluation = "
        "one operation executed concurrently, whose outcome is compared with that of the same operation on another model with "
        "the operations one by one; non-trivial if another thread ran in the middle of it")
ASSUMPTIONS = ["hand-overs happen between source lines or where the interpreter of CPython 3.12 allows them",
               "exceptions are outcomes; the order of the members of an object is none"]

LIB = os.sep + "yangson" + os.sep


class Scheduler:
    """Only the thread that has the token runs; hand-overs come from one random generator."""

    def __init__(self, ctx, rng, n, gap):
        self.ctx, self.rng, self.n, self.gap = ctx, rng, n, gap
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.turn = None
        self.left = 0
        self.switches = 0
        self.steps = 0
        self.free = False
        self.sites = set()
        self.mid = [False] * n      # was the running operation interrupted?
        self.now = [None] * n
        self.pairs = set()
        self.local = threading.local()

    def draw(self):
        g = self.rng.choice(self.gap)
        self.left = 1 + int(self.rng.random() * g)

    def begin(self):
        self.draw()
        self.turn = self.rng.choice(self.live)
        self.sems[self.turn].release()

    def wait(self, me):
        last = -1
        while not self.free:
            if self.sems[me].acquire(timeout=2):
                return
            # the one with the token makes no progress: it waits for something (a lock) that a waiting thread has
            if self.steps == last and me in self.live:
                self.turn = me
                return
            last = self.steps

    def give(self, to):
        self.turn = to
        self.sems[to].release()

    def point(self, frame):
        if self.free:
            return
        me = self.local.me
        self.steps += 1
        self.left -= 1
        if self.left > 0 or me != self.turn:
            return
        self.draw()
        if len(self.live) < 2:
            return
        to = self.rng.choice([t for t in self.live if t != me])
        self.switches += 1
        self.sites.add((frame.f_code.co_filename.rpartition("/")[2], frame.f_lineno))
        self.mid[me] = True
        if self.now[me] and self.now[to]:
            self.pairs.add(tuple(sorted((self.now[me], self.now[to]))))
        self.give(to)
        self.wait(me)

    def trace(self, frame, event, arg):
        if LIB in frame.f_code.co_filename:
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line" or event == "return":
            self.point(frame)
        return self.line

    def end(self, me):
        self.live.remove(me)
        if self.live and not self.free:
            self.give(self.rng.choice(self.live))


def compare(ctx, sc, got, want, env, pic, det):
    for t, log in enumerate(got):
        for i, out, mid in log:
            op = sc.ops[i]
            ctx.ev("run " + op[0])
            ctx.case([sc.json, t, repr(op), repr(out)[:500]], mid, f"thread {t}: {repr(op)[:200]}: {repr(out)[:200]}")
            if mid:
                ctx.ev("interrupted operations")
            if not ctx.check(out == want[i], ("outcome:" if out[0] != "crashed" else "crash:" + out[1] + ":") + op[0],
                             lambda: f"{repr(op)[:300]} gives {repr(out)[:400]} beside other threads, and {repr(want[i])[:400]} alone",
                             operation=op, concurrent=out, alone=want[i], **det):
                return
    if ctx.check(env.picture() == pic, "instance-changed", "a shared instance differs afterwards", **det):
        ctx.ev("instances unchanged")
    a = env.astray()
    ctx.check(a is None, "place-changed", lambda: f"a shared node at {a[0]} has path {a[1]} afterwards", **det)


def pools(sc, rng, n, k):
    """Operations of the threads: sometimes few different ones, which meet more often."""
    idx = list(range(len(sc.ops)))
    r = rng.random()
    if sc.hotops and r < 0.35:
        idx = sc.hotops
    elif r < 0.55:
        kind = rng.choice(["validate", "add-defaults", "xpath", "type", "from-raw", "rid", "xml", "operation", "put", "identities"])
        idx = [i for i in idx if sc.ops[i][0] == kind] or idx
    elif r < 0.75:
        idx = rng.sample(idx, min(8, len(idx)))
    return [[rng.choice(idx) for _ in range(k)] for _ in range(n)]


def alone(sc, plans):
    env = Env(sc, sc.model())
    return {i: sc.run(env, sc.ops[i]) for i in sorted({i for p in plans for i in p})}


def scheduled(ctx, rng):
    sc = Scene(ctx, rng, nops=60)
    if not sc.ops:
        return
    for _ in range(4):
        n = rng.choice([2, 2, 3, 4])
        plans = pools(sc, rng, n, 60 // n)
        want = alone(sc, plans)
        env = Env(sc, sc.model())
        pic = env.picture()
        s = Scheduler(ctx, rng, n, rng.choice([[3], [12], [60], [300], [2, 20, 400]]))
        got = [[] for _ in range(n)]
        errors = []

        def body(me):
            try:
                s.local.me = me
                s.wait(me)
                sys.settrace(s.trace)
                try:
                    for i in plans[me]:
                        s.mid[me] = False
                        s.now[me] = sc.ops[i][0]
                        out = sc.run(env, sc.ops[i])
                        got[me].append((i, out, s.mid[me]))
                        s.now[me] = None
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errors.append(e)
            finally:
                s.end(me)
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t in ths:
            t.start()
        s.begin()
        try:
            for t in ths:
                while t.is_alive():
                    t.join(0.5)
        finally:
            s.free = True
            for x in s.sems:
                x.release()
        ctx.ev("hand-overs", s.switches)
        ctx.ev("scheduled runs")
        for x in s.sites - SITES:
            ctx.ev("places of hand-overs (file and line, per worker)")
        SITES.update(s.sites)
        for x in s.pairs - PAIRS:
            ctx.ev("pairs of kinds of operations that met (per worker)")
        PAIRS.update(s.pairs)
        if errors:
            raise errors[0]
        compare(ctx, sc, got, want, env, pic, {"plans": [[sc.ops[i][0] for i in p] for p in plans], "documents": sc.docs, "text": sc.m.text(), "library": sc.json})


SITES = set()
PAIRS = set()


def free(ctx, rng):
    sc = Scene(ctx, rng, nops=80)
    if not sc.ops:
        return
    old = sys.getswitchinterval()
    for _ in range(3):
        n = 6
        plans = pools(sc, rng, n, 60)
        want = alone(sc, plans)
        env = Env(sc, sc.model())
        pic = env.picture()
        got = [[] for _ in range(n)]
        bar = threading.Barrier(n)
        errors = []
        clock = [0]

        def body(me):
            try:
                bar.wait()
                for i in plans[me]:
                    clock[0] = me
                    out = sc.run(env, sc.ops[i])
                    got[me].append((i, out, clock[0] != me))
            except BaseException as e:
                errors.append(e)
        sys.setswitchinterval(1e-6)
        try:
            ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
            for t in ths:
                t.start()
            for t in ths:
                while t.is_alive():
                    t.join(0.5)
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        compare(ctx, sc, got, want, env, pic, {"documents": sc.docs, "text": sc.m.text(), "library": sc.json})


GROUPS = [Group("scheduled", scheduled, 60, 800), Group("free", free, 40, 400)]
REQUIRE = {"hand-overs": 200000, "interrupted operations": 5000, "instances unchanged": 200, "scheduled runs": 100,
           "places of hand-overs (file and line, per worker)": 2000, "run validate": 1000, "run type": 500, "run xpath": 500, "run operation": 300}
