"""Reference YANG types (RFC 7950 section 9, RFC 7951 encoding).

A decoded value is a tagged tuple:
 ('int',n) ('dec',Decimal) ('str',s) ('bool',b) ('enum',s) ('bits',(names..))
 ('bin',bytes) ('id',(mod,name)) ('empty',) ('iid',str)
"""
import base64
import binascii
import re
from decimal import Decimal

INTS = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1),
        "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
        "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1),
        "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
BUILTIN = set(INTS) | {"decimal64", "string", "boolean", "enumeration", "bits",
                       "binary", "leafref", "identityref", "empty", "union",
                       "instance-identifier"}

# XSD patterns used by the generators: (python regex, good samples, bad samples)
PATTERNS = {
    "[a-z]*": (r"[a-z]*", ["", "a", "abc", "zzzz", "hello"], ["A", "a1", " a", "a ", "a\n", "é"]),
    "[a-z0-9]+": (r"[a-z0-9]+", ["a", "7", "x9x", "abc"], ["", "-", "A", "a b", "a\n"]),
    "a.*": (r"a[^\n\r]*", ["a", "ab", "a b", "a-1"], ["", "b", "ba", " a"]),
    "[0-9]{2,3}": (r"[0-9]{2,3}", ["12", "123", "00"], ["1", "1234", "1x", "12\n", ""]),
    "(ab|cd)+": (r"(?:ab|cd)+", ["ab", "abcd", "cdcd"], ["", "a", "abc", "abx"]),
    "x|yz": (r"(?:x|yz)", ["x", "yz"], ["xyz", "y", "", "xz", "yzx"]),
    "[^x]*": (r"[^x]*", ["", "abc", "ABC 1"], ["x", "axb", "ax"]),
    "\\d+\\.\\d*": (r"[0-9]+\.[0-9]*", ["1.5", "22.", "0.0"], ["", ".5", "1", "1.5a"]),
    "[\\-+a-c]+": (r"[\-+a-c]+", ["-", "a+b", "cab"], ["", "d", "a_b"]),
    "$a^": (r"\$a\^", ["$a^"], ["a", "$a", ""]),
    "[a-zA-Z_][a-zA-Z0-9\\-_.]*": (r"[a-zA-Z_][a-zA-Z0-9\-_.]*", ["a", "_x-1", "Ab.c"], ["", "1a", "-", "a b"]),
    ".{3}": (r"[^\n\r]{3}", ["abc", "1 2", "ééé"], ["ab", "abcd", ""]),
}


class TypeErr(Exception):
    def __init__(self, why="invalid"):
        super().__init__(why)
        self.why = why


class RType:
    def __init__(self, base):
        self.base = base
        self.name = None         # outermost typedef name
        self.ranges = None
        self.lengths = None
        self.patterns = []       # (pattern, invert)
        self.enums = None        # name -> value
        self.bits = None         # name -> position
        self.fd = None
        self.bases = []          # [(mod, name)]
        self.members = []        # union
        self.path = None
        self.pathctx = None      # (mod) where the leafref path is written
        self.require = True
        self.target = None       # RType of leafref target (after resolution)
        self.default = None      # (text, mod) from typedef chain
        self.units = None
        self.defmod = None
        self.lib = None
        self.errs = {}           # 'range'|'length' -> (tag, msg)

    def effective(self):
        t = self
        seen = 0
        while t.base == "leafref":
            t = t.target
            seen += 1
            if t is None or seen > 20:
                raise TypeErr("unresolved leafref")
        return t

    # -- value space -------------------------------------------------------
    def inrange(self, n):
        if self.ranges is not None:
            return any(lo <= n <= hi for lo, hi in self.ranges)
        if self.base == "decimal64":
            q = Decimal(10) ** self.fd
            return -(2**63) <= n * q <= 2**63 - 1
        lo, hi = INTS[self.base]
        return lo <= n <= hi

    def haslen(self, n):
        return self.lengths is None or any(lo <= n <= hi for lo, hi in self.lengths)

    def check(self, v):
        """Raise TypeErr unless the decoded value belongs to the type."""
        t = self.effective()
        b = t.base
        if b in INTS:
            if v[0] != "int" or not t.inrange(v[1]):
                raise TypeErr("range")
        elif b == "decimal64":
            if v[0] != "dec" or not t.inrange(v[1]):
                raise TypeErr("range")
        elif b == "string":
            if v[0] != "str":
                raise TypeErr("type")
            if not t.haslen(len(v[1])):
                raise TypeErr("length")
            for p, inv in t.patterns:
                hit = re.fullmatch(PATTERNS[p][0], v[1]) if isinstance(p, str) else p.match(v[1])
                if bool(hit) == inv:
                    raise TypeErr("pattern")
        elif b == "binary":
            if v[0] != "bin":
                raise TypeErr("type")
            if not t.haslen(len(v[1])):
                raise TypeErr("length")
        elif b == "enumeration":
            if v[0] != "enum" or v[1] not in t.enums:
                raise TypeErr("enum")
        elif b == "bits":
            if v[0] != "bits" or any(x not in t.bits for x in v[1]) or \
                    len(set(v[1])) != len(v[1]):
                raise TypeErr("bits")
        elif b == "identityref":
            if v[0] != "id":
                raise TypeErr("type")
            if v[1] not in t.lib.identities:
                raise TypeErr("identity")
            for bs in t.bases:
                if not t.lib.derived(v[1], bs):
                    raise TypeErr("identity")
        elif b == "boolean":
            if v[0] != "bool":
                raise TypeErr("type")
        elif b == "empty":
            if v[0] != "empty":
                raise TypeErr("type")
        elif b == "instance-identifier":
            if v[0] != "iid" or t.lib.iid_ok is not None and not t.lib.iid_ok(v[1]):
                raise TypeErr("type")
        else:
            raise TypeErr("?" + b)

    # -- JSON --------------------------------------------------------------
    def from_json(self, raw, ns):
        """Decode and check; returns (value, member type)."""
        t = self.effective()
        if t.base == "union":
            for m in t.members:
                try:
                    return m.from_json(raw, ns)
                except TypeErr:
                    continue
            raise TypeErr("union")
        v = t._decode_json(raw, ns)
        t.check(v)
        return v, t

    def _decode_json(self, raw, ns):
        b = self.base
        if b in ("int64", "uint64"):
            if not isinstance(raw, str) or not re.fullmatch(r"[+-]?[0-9]+", raw):
                raise TypeErr("json")
            if len(raw.lstrip("+-0")) > 30:
                raise TypeErr("range")
            return ("int", int(raw))
        if b in INTS:
            if isinstance(raw, bool) or not isinstance(raw, int):
                raise TypeErr("json")
            return ("int", raw)
        if b == "decimal64":
            if not isinstance(raw, str):
                raise TypeErr("json")
            return self._dec(raw)
        if b == "boolean":
            if not isinstance(raw, bool):
                raise TypeErr("json")
            return ("bool", raw)
        if b == "empty":
            if raw != [None] or not isinstance(raw, list):
                raise TypeErr("json")
            return ("empty",)
        if not isinstance(raw, str):
            raise TypeErr("json")
        return self._decode_text(raw, ns)

    def _dec(self, s):
        m = re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", s)
        if not m:
            raise TypeErr("lex")
        d = Decimal(s)
        if -d.as_tuple().exponent > self.fd:
            q = d * (Decimal(10) ** self.fd)
            if q != q.to_integral_value():
                raise TypeErr("fraction-digits")
        return ("dec", d)

    def _decode_text(self, s, ns):
        b = self.base
        if b == "string":
            return ("str", s)
        if b == "enumeration":
            return ("enum", s)
        if b == "bits":
            names = s.split()
            if len(set(names)) != len(names):
                raise TypeErr("bits-dup")
            return ("bits", tuple(sorted(names, key=lambda n: self.bits.get(n, -1))))
        if b == "binary":
            try:
                if not re.fullmatch("([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", s):
                    raise TypeErr("base64")
                return ("bin", base64.b64decode(s.encode("ascii"), validate=True))
            except (ValueError, binascii.Error):
                raise TypeErr("base64")
        if b == "identityref":
            p, sep, n = s.partition(":")
            return ("id", (p, n) if sep else (ns, p))
        if b == "instance-identifier":
            return ("iid", s)
        raise TypeErr("?" + b)

    # -- lexical (YANG default / XML text without prefixes) ------------------
    def from_text(self, text, ns, mod=None):
        """Decode lexical text, identityref prefixes resolved via mod (YANG
        text) or read as module names (mod None)."""
        t = self.effective()
        b = t.base
        if b == "union":
            for m in t.members:
                try:
                    return m.from_text(text, ns, mod)
                except TypeErr:
                    continue
            raise TypeErr("union")
        if b in INTS:
            if mod is not None and re.fullmatch(r"[+-]?0x[0-9a-fA-F]+", text):
                v = ("int", int(text, 16))
            elif mod is not None and re.fullmatch(r"[+-]?0[0-7]+", text):
                v = ("int", int(text, 8))
            elif mod is not None and re.fullmatch(r"[+-]?0[0-9]+", text):
                raise TypeErr("lex")
            elif len(text.lstrip("+-0")) > 30:
                raise TypeErr("range")
            elif re.fullmatch(r"[+-]?[0-9]+", text):
                v = ("int", int(text))
            else:
                raise TypeErr("lex")
        elif b == "decimal64":
            v = t._dec(text)
        elif b == "boolean":
            if text not in ("true", "false"):
                raise TypeErr("lex")
            v = ("bool", text == "true")
        elif b == "empty":
            if text != "":
                raise TypeErr("lex")
            v = ("empty",)
        elif b == "identityref" and mod is not None:
            p, sep, n = text.partition(":")
            if sep and p not in mod.prefixes:
                raise TypeErr("prefix")
            v = ("id", (mod.prefixes[p].main, n) if sep else (mod.main, p))
        else:
            v = t._decode_text(text, ns)
        t.check(v)
        return v, t


def canon(v, t):
    """Canonical string (t: the member type that decoded v)."""
    k = v[0]
    if k == "int":
        return str(v[1])
    if k == "dec":
        return dec_canon(v[1])
    if k == "bool":
        return "true" if v[1] else "false"
    if k in ("str", "enum", "iid"):
        return v[1]
    if k == "bits":
        return " ".join(sorted(v[1], key=lambda n: t.bits[n]))
    if k == "bin":
        return base64.b64encode(v[1]).decode()
    if k == "id":
        return f"{v[1][0]}:{v[1][1]}"
    if k == "empty":
        return ""
    raise AssertionError(k)


def dec_canon(d):
    s = format(d, "f")
    neg = s.startswith("-")
    s = s.lstrip("+-")
    ip, _, fp = s.partition(".")
    ip = ip.lstrip("0") or "0"
    fp = fp.rstrip("0") or "0"
    if ip == "0" and fp == "0":
        neg = False
    return ("-" if neg else "") + ip + "." + fp


def to_json(v, t):
    k = v[0]
    if k == "int":
        return str(v[1]) if t.base in ("int64", "uint64") else v[1]
    if k == "bool":
        return v[1]
    if k == "empty":
        return [None]
    return canon(v, t)


def parse_ranges(expr, lo, hi, num):
    out = []
    for part in expr.split("|"):
        ps = [p.strip() for p in part.split("..")]

        def one(x):
            return lo if x == "min" else hi if x == "max" else num(x)
        a = one(ps[0])
        b = one(ps[-1])
        out.append((a, b))
    return out
