"""Helpers shared by the checks (only public yangson interfaces are used)."""
import json
import traceback
from . import dgen, rdata
from .core import safe_str
from .gen import Profile, gen_model
from .rdata import RawErr

_cache = {}


def model(ctx, rng, prof=None, order=None, layout=True):
    """(reference Model, yangson DataModel) generated from rng."""
    m = gen_model(rng, prof)
    d = ctx.tmpdir()
    dm = m.build(d, rng if layout else None, order)
    ctx.ev("models built")
    return m, dm


def scope_enum(s):
    from yangson.enumerations import ValidationScope
    return ValidationScope[s]


def ctype_enum(s):
    from yangson.enumerations import ContentType
    return ContentType[s]


def route_of(inst):
    """Path of an instance node as a tuple of names and indices."""
    return tuple(inst.path)


def decode_path(ptr):
    """JSON pointer -> tuple of strings."""
    return tuple(x.replace("~1", "/").replace("~0", "~")
                 for x in ptr.split("/")[1:])


class Verdict:
    """What yangson said about a document."""

    def __init__(self, ok, kind=None, path=None, exc=None, tag=None, inst=None):
        self.ok, self.kind, self.path = ok, kind, path
        self.exc, self.tag, self.inst = exc, tag, inst

    def __repr__(self):
        return "accepted" if self.ok else \
            f"{self.kind}[{self.tag}] at {'/'.join(map(str, self.path or ()))} ({safe_str(self.exc)})"


def judge(dm, raw, scope="all", ctype="config", subschema=None, inst=None):
    """Run from_raw + validate; only library errors are verdicts, anything
    else propagates."""
    from yangson.exceptions import (RawDataError, SchemaError, SemanticError,
                                    ValidationError, YangTypeError)
    if inst is None:
        try:
            inst = dm.from_raw(raw) if subschema is None else \
                dm.from_raw(raw, subschema)
        except RawDataError as e:
            return Verdict(False, type(e).__name__, decode_path(e.path), e)
    try:
        inst.validate(scope_enum(scope), ctype_enum(ctype))
    except ValidationError as e:
        kind = "type" if isinstance(e, YangTypeError) else \
            "schema" if isinstance(e, SchemaError) else \
            "semantic" if isinstance(e, SemanticError) else "validation"
        return Verdict(False, kind, tuple(map(str, route_of(e.instance))), e, e.tag, inst)
    return Verdict(True, inst=inst)


class model_text:
    """Model text rendered only if a violation is reported."""

    def __init__(self, lib):
        self.lib = lib

    def __repr__(self):
        from .yst import render
        return "\n".join(render(t.stmt) for m in self.lib.mods for t in m.texts())
