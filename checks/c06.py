"""C06: value conversions agree and canonical forms are canonical."""
import json
import re
import xml.etree.ElementTree as ET
from decimal import Decimal
from checks.c08 import parse_iid
from checks.c05 import accept, features, lab_key, short, undecided, util_text
from vf import tlab, xre
from vf.core import Group, safe_str
from vf.rtypes import TypeErr, canon, to_json

PROPERTY = "C06"
RULE = ("random types (see C05) x valid values in varied lexical forms converted raw -> value -> raw / text / XML and back, pairs of "
        "values compared, and arbitrary texts parsed as plain text, XML text and YANG default; distinct non-trivial = (type, value or text)")


class Mod:
    """Module as seen by the reference when YANG prefixes are resolved."""

    def __init__(self, name):
        self.main = name
        self.prefixes = {}


MA, MB = Mod("m-a"), Mod("m-b")
MB.prefixes = {"a": MA, "b": MB}


def cook(v, t):
    """Python value that yangson uses for the reference value."""
    if v[0] == "id":
        return (v[1][1], v[1][0])
    if v[0] == "empty":
        return (None,)
    return v[1]


def same(a, b):
    return type(a) is type(b) and a == b


def text_of(ty, rng):
    """A text to parse."""
    t = ty.rt.effective()
    r = rng.random()
    if r < 0.25:
        x = rng.choice([h for h in tlab.HOSTILE if isinstance(h, str) and "\ud800" not in h])
        x = x[:40] if len(x) > 40 and tlab.patterned(t) else x
        return x
    while t.base == "union":
        t = rng.choice(t.members).effective()
    v = tlab.guess(t, rng)
    raw = tlab.lexical(t, v, rng)
    if t.base == "boolean":
        raw = "true" if raw else "false"
    elif t.base == "empty":
        raw = ""
    raw = str(raw)
    if r < 0.3:
        raw = xre.near(rng, raw)
    elif r < 0.33 and v[0] == "int":
        raw = rng.choice(["0x%x", "0%o", "-0x%X", "+0%o", "0x_%x", " %d", "%d_0", "%d.0", "0o%o", "0b%d"]) % abs(v[1])
    return raw


def ref_text(rt, text, mod=None):
    t = rt.effective()
    if t.base == "instance-identifier":
        return accept(rt, text)
    v, m = rt.from_text(text, "m-b", mod)
    return v, m


def xml_ok(s):
    return not re.search("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff\r]", s)


def qualified(text, default=False):
    """Steps of an instance identifier (in XML, all names have prefixes)."""
    out = []
    cur = None
    for s in parse_iid(text):
        if s[0] == "m":
            cur = s[1] or (cur if default else None)
            s = ("m", cur, s[2])
        elif s[0] == "k":
            s = ("k", {(k[0] or (cur if default else None), k[1]): v for k, v in s[1].items()})
        out.append(s)
    return out


def case(ctx, rng, per=24):
    lab = tlab.Lab(rng)
    dm = lab.build(ctx.tmpdir())
    ctx.ev("models built")
    for name, ty in lab.leaves:
        typ = dm.get_data_node(f"/m-b:{name}").type
        values(ctx, rng, dm, lab, name, ty, typ, per)
        texts(ctx, rng, lab, name, ty, typ, per)


def values(ctx, rng, dm, lab, name, ty, typ, per):
    rt = ty.rt
    seen = {}
    for _ in range(per):
        raw = tlab.raw_value(ty, rng)
        if undecided(rt, raw) or (isinstance(raw, str) and "\ud800" in raw):
            continue
        try:
            value, m = accept(rt, raw)
        except TypeErr:
            continue
        det = dict(leaf=name, value=short(raw), type="/".join(features(rt)), model=util_text(lab))
        ctx.case([lab_key(lab), name, short(raw)], True, f"{name}: {short(raw)}")
        ctx.ev(f"values {rt.effective().base}")
        x = typ.from_raw(raw)
        if x is None or x not in typ:
            continue           # C05
        isiid = m.base == "instance-identifier"
        if not isiid:
            ctx.check(same(x, cook(value, m)), "wrong-value", lambda: f"{short(raw)} is read as {x!r}", **det)
        # raw
        r2 = typ.to_raw(x)
        amb = ambiguous(rt, value, m)
        if not isiid:
            ctx.check(amb or same(r2, to_json(value, m)), "to-raw", lambda: f"{short(raw)} is exported as {r2!r}", **det)
        x2 = x
        if rt.effective().base == "union" and not amb:
            # the canonical form may be that of an earlier member type
            v2, m2 = accept(rt, r2)
            x2 = typ.from_raw(r2) if m2.base == "instance-identifier" else cook(v2, m2)
        ctx.check(amb or same(typ.from_raw(r2), x2), "raw-round-trip", lambda: f"{short(raw)} -> {r2!r} -> {typ.from_raw(r2)!r}", **det)
        # text
        c = typ.canonical_string(x)
        if not isiid:
            ctx.check(same(c, canon(value, m)), "canonical", lambda: f"canonical form of {short(raw)} is {c!r}", **det)
        i = dm.from_raw({f"m-b:{name}": raw})[f"m-b:{name}"]
        ctx.check(str(i) == c, "str-instance", lambda: f"str() of the instance {str(i)!r}, canonical string {c!r}", **det)
        back(ctx, typ, rt, typ.parse_value(c), c, x, "text", det)
        if m.base != "identityref":
            try:
                y = typ.from_yang(c)
            except Exception as e:
                y = e
            if not any(b == "identityref" for b in features(rt)) and not isiid:
                back(ctx, typ, rt, y, c, x, "yang", det)
        # XML
        if not xml_ok(c):
            continue
        tx = typ.to_xml(x)
        ctx.check(qualified(tx) == qualified(c, True) if isiid else tx == (None if m.base == "empty" else c), "to-xml",
                  lambda: f"XML text of {short(raw)} is {tx!r}", **det)
        doc = ET.tostring(dm.from_raw({f"m-b:{name}": raw}).to_xml())
        e = ET.fromstring(doc)
        ctx.ev("XML documents")
        z = dm.from_xml(e)[f"m-b:{name}"].value if has_ns(rt, m) else None
        if z is not None:
            back(ctx, typ, rt, z, c, x, "xml", det)
        # equal values have equal canonical strings and vice versa
        for c2, (x2, raw2) in seen.items():
            ctx.ev("pairs compared")
            ctx.check((c2 == c) == (x2 == x) or rt.effective().base == "union", "equality",
                      lambda: f"{short(raw)} and {short(raw2)}: equal {x2 == x}, canonical {c!r} and {c2!r}", **det)
        seen[c] = (x, raw)


def has_ns(rt, m):
    """Values whose XML form needs no namespace declarations (those are checked in C16)."""
    f = set(features(rt))
    # white space in binary values is ignored in XML, which makes unions ambiguous
    return not f & {"identityref", "instance-identifier"} and not {"binary"} < f


def ambiguous(rt, value, m):
    """The cooked value belongs to an earlier member with another JSON form (finding of C03)."""
    t = rt.effective()
    return t.base == "union" and m.base in INTS_


INTS_ = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}


def back(ctx, typ, rt, y, c, x, how, det):
    """The text c of the value x was read as y."""
    if rt.effective().base == "union":
        try:
            v, m = ref_text(rt, c, MB if how == "yang" else None)
            if m.base == "instance-identifier":
                return
            x = cook(v, m)
        except TypeErr:
            ctx.fail("harness", "canonical text is not in the union", **det)
            return
    ctx.ev(f"read back {how}")
    ctx.check(same(y, x), f"read-back-{how}", lambda: f"{x!r} written as {c!r} is read back as {y!r}", **det)


def texts(ctx, rng, lab, name, ty, typ, per):
    from yangson.exceptions import InvalidArgument, ParserException, MissingModuleNamespace
    rt = ty.rt
    ident = "identityref" in features(rt)
    for _ in range(per):
        text = text_of(ty, rng)
        det = dict(leaf=name, text=short(text), type="/".join(features(rt)), model=util_text(lab))
        ctx.case([lab_key(lab), name, "text", text], True)
        if undecided(rt, text):
            continue
        want = refv(rt, text)
        verdict(ctx, typ, want, typ.parse_value(text), "text", text, det)
        if not (set(features(rt)) & {"binary"}) and xml_ok(text):
            e = ET.Element("x")
            e.text = text or None
            try:
                y = typ.from_xml(e)
            except MissingModuleNamespace:
                y = None if ident else "raised"
            if not ident:
                verdict(ctx, typ, want, y, "xml", text, det)
        if "instance-identifier" in features(rt):
            continue
        want = refv(rt, text, MB)
        try:
            y = typ.from_yang(text)
        except InvalidArgument:
            y = None
        if rt.effective().base != "leafref":
            verdict(ctx, typ, want, y, "yang", text, det)


def refv(rt, text, mod=None):
    try:
        return ref_text(rt, text, mod)
    except (TypeErr, KeyError):
        return None


def verdict(ctx, typ, want, y, how, text, det):
    ok = y is not None and y in typ
    ctx.ev(f"{how} {'accepted' if ok else 'rejected'}")
    if not ctx.check(ok == (want is not None), f"{'accepts' if ok else 'rejects'}-{how}",
                     lambda: f"{det['type']}: text {short(text)} is read as {y!r}, expected {want and want[0]}", **det):
        return
    if ok and want[1].base != "instance-identifier":
        ctx.check(same(y, cook(*want)), f"wrong-{how}", lambda: f"{short(text)} is read as {y!r}, expected {want[0]}", **det)


GROUPS = [Group("types", case, 450, 5000)]
REQUIRE = {"read back text": 15000, "read back yang": 8000, "read back xml": 8000, "pairs compared": 50000, "text accepted": 8000,
           "text rejected": 8000, "xml accepted": 5000, "yang rejected": 8000}
