"""C23: printed XPath expressions mean the same."""
import importlib
from vf import rxpath, xgen
from vf.core import Group, safe_str

c07 = importlib.import_module("checks.c07")

PROPERTY = "C23"
RULE = ("grammar-generated XPath expressions over random models, with names that look like "
        "operators and functions; one evaluation = one expression: parsed from three spacings, "
        "printed, and parsed again from its printed form; all forms are evaluated by the real "
        "code in several context nodes and the printed form also by the reference evaluator; "
        "non-trivial if the expression has more than one token")
ASSUMPTIONS = ["tabs and newlines in literals are printed as character references, and an even "
               "number of minus signs is printed as none, as the tests fix: such literals and "
               "signs are left out",
               "the printed form uses module names as prefixes"]


class ByModule:
    """Schema data that know module names as prefixes."""

    def __init__(self, sd, names):
        self._sd = sd
        self._names = names

    def __getattr__(self, n):
        return getattr(self._sd, n)

    def prefix2ns(self, prefix, mid):
        if prefix not in self._names:
            from yangson.exceptions import UnknownPrefix
            raise UnknownPrefix(prefix, mid)
        return prefix


def odd_minus(toks):
    out = []
    for t in toks:
        if t == "-" and out and out[-1] == "-":
            continue
        out.append(t)
    return out


def tree(e):
    return e.syntax_tree()


def case(ctx, rng, nexpr=60):
    from yangson.exceptions import YangsonException
    from yangson.schemadata import SchemaContext
    st = c07.Setting(ctx, rng)
    if not st.document(ctx, rng):
        return
    names = {m.name for m in st.lib.mods}
    bymod = ByModule(st.dm.schema_data, names)
    for _ in range(nexpr):
        toks, tm, ns, env, path = c07.gen(st, rng, rng.choice([1, 1, 2, 2, 3]))
        if len(toks) > 100 or any(c in t for t in toks for c in "\t\n\r"):
            continue
        toks = odd_minus(toks)
        texts = [xgen.glue(toks), xgen.glue(toks, rng), xgen.glue(toks, rng),
                 " ".join(toks)]
        det = {"expression": texts[0], "spacings": texts, "module": tm.name,
               "default namespace": ns, "prefixes": env.prefixes, "document": st.raw,
               "model": c07.util.model_text(st.lib)}
        sctx = st.sctx(tm, ns)
        try:
            es = [c07.parse(t, sctx) for t in texts]
        except YangsonException as x:
            rp = c07.rxpath.P(texts[0])
            rp.parse()
            if rp.odd:
                continue          # a literal or number followed by steps
            ctx.fail("refused", f"one of {texts} is refused: {safe_str(x)}", **det)
            continue
        ctx.case([toks, tm.name, ns], len(toks) > 1, {"expression": texts[0], "printed": str(es[0])})
        printed = str(es[0])
        trees = [tree(e) for e in es]
        ctx.ev("spacings compared", 3)
        for t, e, x in zip(texts, es, trees):
            if not ctx.check(str(e) == printed and x == trees[0], "spacing",
                             f"{texts[0]!r} and {t!r} are read differently: {printed} / {e}",
                             **det):
                break
        try:
            back = c07.parse(printed, SchemaContext(bymod, ns, (tm.name, tm.rev or "")))
        except YangsonException as x:
            ctx.fail("unreadable", f"{texts[0]!r} is printed as {printed!r}, which is refused: "
                     f"{safe_str(x)}", printed=printed, **det)
            continue
        ctx.check(str(back) == printed, "not-stable",
                  f"{printed!r} is printed as {str(back)!r}", **det)
        paths = list(st.trees[0][1])
        rng.shuffle(paths)
        penv = c07.rdata.env_for(tm, ns, st.lib)
        penv.patterns = env.patterns
        past = rxpath.P(printed).parse()
        oast = rxpath.P(texts[0]).parse()
        for p in [path] + paths[:3]:
            penv.prefixes = env.prefixes
            penv.visits = 0
            want = c07.ref_eval(st, oast, penv, p)
            if want == ("skip", "work"):
                break
            inst = st.yinst(rng, p)
            a, b, c = (c07.yeval(e, inst) for e in (es[0], back, es[1]))
            ctx.ev("contexts evaluated")
            ctx.check(c07.same(a, b), "other-value",
                      lambda: f"{texts[0]!r} printed as {printed!r} at /{'/'.join(map(str, p))}: "
                      f"{c07.show(a)} became {c07.show(b)}", **det)
            ctx.check(c07.same(a, c), "spacing-value",
                      lambda: f"{texts[0]!r} and {texts[1]!r}: {c07.show(a)} / {c07.show(c)}", **det)
            if want[0] == "skip":
                continue
            # the printed form in the reference evaluator
            penv.prefixes = {n: n for n in names}
            got = c07.ref_eval(st, past, penv, p)
            ctx.ev("read by the reference")
            ctx.check(got[0] == "skip" or c07.same(want, got), "printed-value",
                      lambda: f"{texts[0]!r} means {c07.show(want)}, printed form {printed!r} means "
                      f"{c07.show(got)}", **det)


GROUPS = [Group("printed", case, 300, 4000)]
REQUIRE = {"contexts evaluated": 30000, "read by the reference": 25000}
