"""XML Schema regular expressions: random syntax trees with their text, a
matcher of their own (sets of end positions), and samples."""
import unicodedata

ALPHA = list("abcxyzABZ0159 _-.:,/+*?()[]{}|\\^$#&~\"<>=@!%;") + \
    ["\t", "\n", "\r", "é", "ß", "Ω", "я", "€", "一", "ª", "²", "½", "٣", "\u00a0", "\u2028", "\U0001f600", "\u0301", "\u0000", "\u007f"]
LIT = list("abcxyzAB019 _-:,/#&~<>=@!%;") + list("^$") + ["é", "Ω", "一", "\U0001f600"]
META = ".\\?*+{}()[]|"
BLOCKS = {"IsBasicLatin": (0, 0x7f), "IsLatin-1Supplement": (0x80, 0xff), "IsCyrillic": (0x400, 0x4ff)}
CATS = ["L", "Lu", "Ll", "N", "Nd", "P", "S", "Sc", "Z", "Zs", "M", "Lo", "No"]


def cat(c):
    return unicodedata.category(c)


def name_start(c):
    return c in "_:" or cat(c) in ("Lu", "Ll", "Lo", "Lt", "Nl") and c not in "ª"


def multi(e):
    """Predicate of a multi-character escape (one letter)."""
    f = {"d": lambda c: cat(c) == "Nd",
         "w": lambda c: cat(c)[0] not in "PZC",
         "s": lambda c: c in " \t\n\r",
         }[e.lower()]
    return (lambda c: not f(c)) if e.isupper() else f


class CharSet:
    """A set of characters given by its text and a predicate."""

    def __init__(self, text, pred):
        self.text, self.pred = text, pred

    def ends(self, s, i):
        return {i + 1} if i < len(s) and self.pred(s[i]) else set()

    def sample(self, rng):
        for _ in range(40):
            c = rng.choice(ALPHA)
            if self.pred(c):
                return c
        for c in ALPHA:
            if self.pred(c):
                return c
        raise LookupError


class Seq:
    def __init__(self, parts):
        self.parts = parts
        self.text = "".join(p.text for p in parts)

    def ends(self, s, i):
        cur = {i}
        for p in self.parts:
            cur = {k for j in cur for k in p.ends(s, j)}
        return cur

    def sample(self, rng):
        return "".join(p.sample(rng) for p in self.parts)


class Alt:
    def __init__(self, parts, group):
        self.parts = parts
        self.text = "|".join(p.text for p in parts)
        if group:
            self.text = f"({self.text})"

    def ends(self, s, i):
        return {k for p in self.parts for k in p.ends(s, i)}

    def sample(self, rng):
        return rng.choice(self.parts).sample(rng)


class Rep:
    def __init__(self, part, lo, hi, text):
        self.part, self.lo, self.hi = part, lo, hi
        self.text = part.text + text

    def ends(self, s, i):
        cur, n, out = {i}, 0, set()
        if self.lo == 0:
            out.add(i)
        while cur and (self.hi is None or n < self.hi):
            nxt = {k for j in cur for k in self.part.ends(s, j)}
            n += 1
            if n >= self.lo:
                if nxt <= out and self.hi is None:
                    break
                out |= nxt
            if n > len(s) + self.lo + 1:
                break
            cur = nxt
        return out

    def sample(self, rng):
        n = rng.randint(self.lo, self.lo + 2 if self.hi is None else self.hi)
        return "".join(self.part.sample(rng) for _ in range(n))


class Pattern:
    def __init__(self, node):
        self.node = node
        self.text = node.text

    def match(self, s):
        return len(s) in self.node.ends(s, 0)

    def sample(self, rng):
        return self.node.sample(rng)


def lit(c):
    t = "\\" + c if c in META else c
    return CharSet(t, lambda x, c=c: x == c)


def char_class(rng, depth=0, mixed=False):
    """mixed: with \\D, \\S or \\W among other items (translated wrongly by elementpath, known finding)."""
    neg = rng.random() < 0.25
    txt, preds = "", []
    items = 2 if mixed else rng.randint(1, 3)
    for i in range(items):
        r = rng.random()
        if mixed and i == 0:
            e = rng.choice("DSW")
            txt += "\\" + e
            preds.append(multi(e))
        elif r < 0.35:
            a, b = rng.choice([("a", "z"), ("0", "9"), ("A", "F"), ("x", "z"), ("1", "5"), ("!", "~"), ("à", "ÿ")])
            txt += f"{a}-{b}"
            preds.append(lambda c, a=a, b=b: a <= c <= b)
        elif r < 0.5:
            e = rng.choice("dswDSW" if items == 1 else "dsw")
            txt += "\\" + e
            preds.append(multi(e))
        elif r < 0.6:
            n = rng.choice(CATS)
            txt += f"\\p{{{n}}}"
            preds.append(lambda c, n=n: cat(c).startswith(n))
        else:
            c = rng.choice(LIT + list(".?*+()|{}"))
            if c == "-" and (i < items - 1 or depth):
                c = "_"
            if c in "-^":
                txt += "\\" + c
            elif c in ".?*+()|{}":
                txt += rng.choice(["", "\\"]) + c
            else:
                txt += c
            preds.append(lambda x, c=c: x == c)

    def pred(c):
        return any(p(c) for p in preds) != neg
    sub = ""
    if depth == 0 and rng.random() < 0.15 and txt[-1] != '-':
        o = char_class(rng, 1)
        if o is not None:
            sub = "-" + o.text
            base = pred

            def pred(c):
                return base(c) and not o.pred(c)
    if not any(pred(c) for c in ALPHA):
        return char_class(rng, depth)
    return CharSet(f"[{'^' if neg else ''}{txt}{sub}]", pred)


def atom(rng, depth):
    if depth and rng.random() < 0.35:
        return lit(rng.choice("abcxyz"))
    r = rng.random()
    if r < 0.4:
        return lit(rng.choice(LIT + list(META)))
    if r < 0.48:
        return CharSet(".", lambda c: c not in "\n\r")
    if r < 0.58:
        e = rng.choice("dswDSW")
        return CharSet("\\" + e, multi(e))
    if r < 0.64:
        n, up = rng.choice(CATS), rng.random() < 0.3
        return CharSet(f"\\{'P' if up else 'p'}{{{n}}}", lambda c: cat(c).startswith(n) != up)
    if r < 0.66:
        n = rng.choice(sorted(BLOCKS))
        a, b = BLOCKS[n]
        return CharSet(f"\\p{{{n}}}", lambda c: a <= ord(c) <= b)
    if r < 0.68:
        e = rng.choice("nrt")
        x = {"n": "\n", "r": "\r", "t": "\t"}[e]
        return CharSet("\\" + e, lambda c: c == x)
    if r < 0.84 or depth >= 2:
        return char_class(rng)
    return alt(rng, depth + 1, True)


def quant(rng, a):
    r = rng.random()
    if r < 0.55:
        return a
    lo, hi, t = rng.choice([(0, 1, "?"), (0, None, "*"), (1, None, "+"), (2, 2, "{2}"), (1, 3, "{1,3}"), (2, None, "{2,}"),
                            (0, 2, "{0,2}"), (0, 0, "{0}")])
    if isinstance(a, Alt) and t not in ("?", "{0}"):
        # ambiguous repetition makes the matcher of Python exponential
        first = [p.parts[0].text[-1] if p.parts and all(isinstance(x, CharSet) and len(x.text.lstrip("\\")) < 2
                                                       and x.text[0] not in ".[" and (x.text[0] != "\\" or x.text[1] in META)
                                                       for x in p.parts) else "" for p in a.parts]
        if "" in first or len(set(first)) < len(first):
            return a
    return Rep(a, lo, hi, t)


def alt(rng, depth=0, group=False):
    parts = [Seq([quant(rng, atom(rng, depth)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3] if depth or rng.random() < 0.1
                                                                      else [1, 2, 2, 3, 4]))])
             for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return Alt(parts, group)


def pattern(rng):
    return Pattern(alt(rng))


def near(rng, s):
    """A string close to s."""
    r = rng.random()
    i = rng.randint(0, len(s))
    if r < 0.3:
        return s[:i] + rng.choice(ALPHA) + s[i:]
    if r < 0.6 and s:
        return s[:i] + s[i + 1:]
    if r < 0.8 and s:
        i = rng.randrange(len(s))
        return s[:i] + rng.choice(ALPHA) + s[i + 1:]
    if r < 0.9:
        return s + rng.choice(["\n", " ", "a", s[-1:]])
    return s * 2
