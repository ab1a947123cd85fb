"""C05: types accept exactly their value space."""
import json
import os
import re
from vf import tlab, util, xre
from vf.core import Group, safe_str
from vf.rtypes import TypeErr, canon
from vf.yst import S

PROPERTY = "C05"
RULE = ("random types in two modules (built-in types, chains of typedefs with restrictions at every level, unions, enums and bits "
        "with if-feature, identities, leafrefs) x JSON values near every limit, strings derived from the patterns, all kinds of JSON "
        "values; distinct non-trivial = (type, value) decided by a restriction or lexical rule (the value has the JSON kind of the type "
        "or the type is a union)")


def undecided(rt, raw):
    """Values whose acceptance is not specified (or pinned by tests to be lenient)."""
    t = rt.effective()
    if t.base == "union":
        return any(undecided(m, raw) for m in t.members)
    if not isinstance(raw, str):
        return False
    if t.base == "decimal64":
        m = re.fullmatch(r"[+-]?[0-9]+\.([0-9]+)", raw)
        return bool(m) and len(m.group(1).rstrip("0")) > t.fd     # extra digits are rounded
    if t.base == "bits":
        return raw != " ".join(raw.split())                      # other white space
    if t.base == "instance-identifier":
        return raw == "/" or raw[:1] == "/" and raw not in tlab.IID_OK | tlab.IID_BAD
    return False


def accept(rt, raw):
    t = rt.effective()
    if t.base == "instance-identifier":
        if isinstance(raw, str) and (raw in tlab.IID_OK or raw in ("/m-b:l1", "/m-b:l1[.='x']")):
            return ("iid", raw), t
        raise TypeErr("iid")
    return rt.from_json(raw, "m-b")


def features(rt):
    t = rt.effective()
    if t.base == "union":
        return sorted({f for m in t.members for f in features(m)})
    return [t.base]


def errors_ok(ty, value, tag, msg):
    """The reported tag and message are those of a violated restriction."""
    bad = [(i, lv) for i, lv in enumerate(ty.levels) if not lv[1](value)]
    tags, msgs, anymsg = set(), [], False
    for i, (kind, _, t, m) in bad:
        chain = [lv for lv in ty.levels[:i + 1] if lv[0] == kind]
        if kind == "pattern":
            chain = [ty.levels[i]]
        # a restriction without its own tag or message inherits it or gets a default
        tags |= {t} if t else {lv[2] for lv in chain if lv[2]} | {"invalid-type"}
        if m:
            msgs.append(m)
        else:
            anymsg = True
    return tag in tags, anymsg or any(msg == m or msg.startswith(m + ":") for m in msgs)


def short(raw):
    s = hex(raw) if type(raw) is int and abs(raw) > 10**40 else repr(raw)
    return s if len(s) < 200 else s[:90] + "..." + s[-20:]


def kind_ok(b, raw):
    if b in ("int8", "int16", "int32", "uint8", "uint16", "uint32"):
        return isinstance(raw, int) and not isinstance(raw, bool)
    if b == "boolean":
        return isinstance(raw, bool)
    if b == "empty":
        return isinstance(raw, list)
    return isinstance(raw, str)


def case(ctx, rng, per=45):
    lab = tlab.Lab(rng)
    dm = lab.build(ctx.tmpdir())
    ctx.ev("models built")
    for name, ty in lab.leaves:
        typ = dm.get_data_node(f"/m-b:{name}").type
        seen = set()
        for _ in range(per):
            raw = tlab.raw_value(ty, rng)
            if short(raw) in seen:
                continue
            seen.add(short(raw))
            one(ctx, dm, lab, name, ty, typ, raw)


def one(ctx, dm, lab, name, ty, typ, raw):
    from yangson.exceptions import YangTypeError, RawTypeError
    rt = ty.rt
    if undecided(rt, raw):
        ctx.ev("unspecified, skipped")
        return
    try:
        value, member = accept(rt, raw)
        ok = True
    except TypeErr as e:
        ok, why = False, e.why
    det = dict(leaf=name, value=short(raw), model=util_text(lab))
    v = util.judge(dm, {f"m-b:{name}": raw}, "syntax", "all")
    f = features(rt)
    kind = any(kind_ok(b, raw) for b in f)
    ctx.case([lab_key(lab), name, short(raw)], kind, f"{name}: {short(raw)} {'valid' if ok else 'invalid'}")
    ctx.ev(f"{'accepted' if ok else 'rejected'} {rt.effective().base}")
    if not ctx.check(v.ok == ok, f"{'rejects-valid' if ok else 'accepts-invalid'}",
                     lambda: f"{'/'.join(f)}: {short(raw)} expected {'valid' if ok else 'invalid (' + why + ')'}, got {v}", **det):
        return
    # the type itself
    x = typ.from_raw(raw)
    got = x is not None and x in typ
    ctx.check(got == ok, "type-object", lambda: f"type object says {got} for {short(raw)}, document is {ok}", **det)
    if ok:
        c = typ.canonical_string(x)
        if member.base not in ("instance-identifier",):
            ctx.check(c == canon(value, member), "wrong-value", lambda: f"{short(raw)} is read as {c!r}", **det)
        return
    # how it is rejected
    safe_str(v.exc)
    ctx.check(isinstance(v.exc, (YangTypeError, RawTypeError)), "wrong-error", f"rejected by {v}", **det)
    ctx.check(v.path[-1] == f"m-b:{name}", "wrong-place", f"error at {v.path}", **det)
    t = rt.effective()
    if t.base == "union" or not isinstance(v.exc, YangTypeError):
        return
    ctx.check(bool(v.tag) and v.tag == v.exc.tag, "no-tag", "no error tag", **det)
    try:
        value = t._decode_json(raw, "m-b")
    except TypeErr:
        return
    if any(not lv[1](value) for lv in ty.levels):
        tag, msg = errors_ok(ty, value, v.exc.tag, v.exc.message or "")
        ctx.ev("rejections with declared tag or message", any((lv[2] or lv[3]) and not lv[1](value) for lv in ty.levels))
        ctx.check(tag, "error-tag", lambda: f"{short(raw)} rejected with tag {v.exc.tag}", **det)
        ctx.check(msg, "error-message", lambda: f"{short(raw)} rejected with message {v.exc.message}", **det)


class util_text:
    def __init__(self, lab):
        self.lab = lab

    def __repr__(self):
        return self.lab.text()


def lab_key(lab):
    if not hasattr(lab, "key"):
        lab.key = lab.text()
    return lab.key


def one_type(ctx, st, name="l1"):
    """Data model with a single leaf (known findings)."""
    from yangson import DataModel
    from vf.yst import render
    m = S("module", "m-b", S("yang-version", "1.1"), S("namespace", "urn:b"), S("prefix", "b"), S("leaf", name, st))
    d = ctx.tmpdir()
    with open(os.path.join(d, "m-b.yang"), "w", encoding="utf-8") as f:
        f.write(render(m))
    return DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
        {"name": "m-b", "revision": "", "namespace": "urn:b", "conformance-type": "implement"}]}}), (d,))


def mixed(ctx, rng):
    """Known finding: complement escapes among other items of a character class."""
    p = xre.char_class(rng, 0, True)
    dm = one_type(ctx, S("type", "string", S("pattern", p.text)))
    for c in rng.sample(xre.ALPHA, 25):
        v = util.judge(dm, {"m-b:l1": c}, "syntax", "all")
        ctx.case([p.text, c], True)
        ctx.check(v.ok == p.pred(c), "pattern-class-complement", lambda: f"pattern {p.text} and {c!r}: got {v}", pattern=p.text, value=c)


GROUPS = [Group("types", case, 500, 5000), Group("mixed", mixed, 20, 100)]
REQUIRE = {f"{a} {b}": n for a in ("accepted", "rejected") for b, n in
           {"string": 3000, "decimal64": 1000, "union": 2000, "enumeration": 500, "bits": 300, "binary": 500, "identityref": 300, "int8": 300,
            "int64": 300, "uint64": 300, "instance-identifier": 100, "boolean": 100, "empty": 20}.items()}
REQUIRE["rejections with declared tag or message"] = 2000
