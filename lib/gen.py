"""What the generators of lexical documents share: random words, characters and lengths, and joining without ambiguity."""
import json, os, re
TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.json")))
ASCII_START = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
ASCII_CONT = ASCII_START + "0123456789"
# letters of several scripts and planes, all XID_Start
LETTERS = "éßñøΩπжЯאبक中文字語한カゔ𝒜𝔘𐐷𠮷ªǅʰ"
XCONT = LETTERS + "\u0301\u0663\u203f\u06f1\U0001d7d8"       # marks, digits and connectors: XID_Continue
TEXT = "abcxyz019 _.,:;!?+-*/=<>()[]{}&|^~%@#$`'\"\\" + "éß中😀\u0301\u200d\u00a0\u2028\U0010ffff\ufeff"

class Gen:
    def __init__(self, r): self.r = r
    def p(self, x): return self.r.random() < x
    def pick(self, xs): return xs[int(self.r.random() * len(xs))]
    def length(self, mean=6, cap=400):
        x = self.r.random()
        if x < .1: return 0
        if x < .9: return self.r.randint(1, 2 * mean)
        if x < .985: return self.r.randint(1, 12 * mean)
        return self.r.randint(1, cap)
    def text(self, alphabet=TEXT, n=None):
        n = self.length() if n is None else n
        # long texts also as runs of one character
        if n > 20 and self.p(.3): return self.pick(alphabet) * n
        return "".join(self.pick(alphabet) for _ in range(n))
    def digits(self, ds, n=None, sep=None, psep=.25):
        n = n or max(1, self.length(3, 80))
        s = self.pick(ds)
        for _ in range(n - 1):
            if sep and self.p(psep): s += sep
            s += self.pick(ds)
        return s
    def bad_number(self, patterns):
        """A malformed number: d, h, b, o stand for digits of a base, after a %."""
        p = self.pick(patterns); ds = {"d": "123456789", "h": "123456789abcdfABCDF", "b": "01", "o": "1234567"}
        return re.sub("%([dhbo])", lambda m: self.digits(ds[m.group(1)], self.r.randint(1, 5)), p)
    def beyond(self, *prefixes):
        """A number and a digit which its base does not have: another number begins there."""
        p = self.pick(prefixes); good, bad = ("01", "23456789") if p in ("0b", "0B") else ("01234567", "89")
        return [(p, "number_decor"), (self.digits(good, self.r.randint(1, 4)), "number"), (self.pick(bad) + (self.digits("0123456789") if self.p(.5) else ""), "number")]
    def word(self, start=ASCII_START, cont=ASCII_CONT, avoid=(), uni=True, extra=None):
        while True:
            n = self.r.randint(0, 7) if self.p(.95) else self.r.randint(8, 70)
            s = self.pick(start)
            for _ in range(n): s += self.pick(cont)
            if uni and self.p(.12):
                i = self.r.randint(0, len(s))
                s = s[:i] + self.pick(LETTERS if i == 0 else XCONT) + s[i:]
            if extra and self.p(.1): s = self.pick(extra)(s)
            if s not in avoid and s.casefold() not in avoid: return s
    def near(self, words, avoid):
        """An identifier which is nearly one of words."""
        while True:
            w = self.pick(words)
            k = self.r.randrange(6)
            s = [w + self.pick("_x0sA"), "_" + w, w[:-1], w.upper(), w.capitalize(), w + w][k]
            if s and s not in avoid and (s[0].isalpha() or s[0] == "_") and all(c.isalnum() or c == "_" for c in s): return s
    def size(self):
        x = self.r.random()
        return self.r.randint(1, 4) if x < .25 else self.r.randint(4, 40) if x < .93 else self.r.randint(40, 250)

def without(text, *bad):
    """text without the given substrings."""
    while True:
        t = text
        for b in bad: t = t.replace(b, "")
        if t == text: return t
        text = t

def munch(ops):
    """A function splitting a string of operator characters by longest match; None where no operator matches."""
    ops = sorted(ops, key=len, reverse=True)
    def split(s):
        out, i = [], 0
        while i < len(s):
            o = next((o for o in ops if s.startswith(o, i)), None)
            if o is None: return None
            out.append(o); i += len(o)
        return out
    return split

class TokenGen(Gen):
    """Documents which are sequences of elements. Subclasses define element() -> item, and sep(prev, item): the
    separator needed between two neighbours: "" (none), " ", "\n"."""
    SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n  ", " \n\t"]
    def spaces(self): return self.pick(self.SPACES)
    def comment(self): return None
    def run(self, types, no=()):
        """Operators written without blanks: what the longest match makes of them."""
        for _ in range(8):
            s = "".join(self.pick(types) for _ in range(self.r.randint(2, 5)))
            parts = self.split(s)
            if parts and all(p in types for p in parts) and not any(n in s for n in no): return s, parts
        o = self.pick(types); return o, [o]
    tail = ""
    def joins(self, a, b):
        """Whether a and b, written without a blank (after the operators tail), stay what they are."""
        return self.split(self.tail + a + b) == (self.split(self.tail + a) or [self.tail + a]) + (self.split(b) or [b])
    def sep_after(self, out, item):
        self.tail = ""
        if out[-1][0] == "operator":
            for it in reversed(out[:-1]):
                if it[0] != "operator": break
                self.tail = self.text_of(it) + self.tail
        return self.sep(out[-1], item)
    def text_of(self, item): return "".join(t for t, _ in item[1])
    def rejoin(self, items):
        out = []
        for it in items:
            if out:
                s = self.sep_after(out, it)
                if s: out.append(("space", [(s, None)]))
            out.append(it)
        return out
    def sequence(self, n):
        out = []
        for _ in range(n):
            it = self.element()
            if out:
                s = self.sep_after(out, it)
                x = self.r.random()
                if s == "\n": out.append(("space", [(self.pick(["\n", "\n", "\n\n", " \n  ", "\n\t"]), None)]))
                elif s or x < .45:
                    c = self.comment() if x < .05 else None
                    if c and self.sep_after(out, c) == "": out.append(c)
                    else: out.append(("space", [(self.spaces(), None)]))
                    s2 = self.sep_after(out, it)
                    if s2: out.append(("space", [(s2 if s2 == "\n" else self.spaces(), None)]))
                    if self.sep_after(out, it): out.append(("space", [("\n", None)]))
            out.append(it)
        return out

def digit_segs(s, sep="_"):
    """Digits with separators as segments."""
    out = []
    for c in s:
        t = "number_delim" if c == sep else "number"
        if out and out[-1][1] == t == "number": out[-1] = (out[-1][0] + c, t)
        else: out.append((c, t))
    return out
HEX = "0123456789abcdefABCDEF"
