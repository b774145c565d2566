"""C35: Lua."""
import corpus, lex
from gen import *

D = "0123456789"
T = TABLES["lua"]
WORDS = [(c, t) for c, t, _ in T if c[0].isalpha()]
ALL = {c for c, _ in WORDS}
OPS = {c: t for c, t, _ in T if not c[0].isalpha()}
class Lua(TokenGen):
    exact = lex.EXACT | {"long string", "attribute", "comment", "label", "long comment", "other character", "string"}
    SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n  ", "\r\n", "\f", "\v"]
    split = staticmethod(munch(list(OPS) + ["--"]))
    def name(self):
        if self.p(.2): return self.near([c for c, _ in WORDS], ALL)
        return self.word(avoid=ALL, uni=False)
    def ident(self): return ("identifier", [(self.name(), "name")])
    def keyword(self): return ("keyword", [self.pick(WORDS)])
    def op(self):
        if self.p(.15): s, parts = self.run(list(OPS), ("[[", "[=")); return ("operator", [(p, OPS[p]) for p in parts])
        o = self.pick(list(OPS)); return ("operator", [(o, OPS[o])])
    def other(self): return ("other character", [(self.pick("!@$?`\\"), "symbol")])
    def label(self): return ("label", [("::", "symbol_op"), (self.name(), "name"), ("::", "symbol_op")])
    def attrib(self): return ("attribute", [("<", "name_attr_delim"), ("const", "name_attr"), (">", "name_attr_delim")])
    def number(self):
        k = self.r.randrange(5)
        if k < 2:
            a, b = self.digits(HEX), self.digits(HEX) if self.p(.3) else ""
            s = self.pick(["0x", "0X"]) + (a if self.p(.9) or not b else "") + ("." + b if b or self.p(.05) else "")
            if self.p(.3): s += self.pick("pP") + self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 4))
        elif k == 2: s = self.digits(D)
        else:
            a = self.digits(D) if self.p(.8) else ""; b = self.digits(D) if self.p(.8) or not a else ""
            s = a + ("." + b if b or self.p(.5) else "")
            if self.p(.4): s += self.pick("eE") + self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 4))
        return ("number", [(s, "number")])
    def string(self, terminated=True):
        q = self.pick("'\""); s = ""
        for _ in range(self.r.randint(0, 4) if self.p(.92) else self.r.randint(4, 30)):
            x = self.r.random()
            if x < .35: s += "\\" + self.pick(["a", "b", "n", "\\", "\"", "'", "065", "x41", "u{20AC}", "\n", "\r\n", "z", "z\n   ", "z \r\n\t"])
            else: s += without(self.text(), "\\", "\r", "\n", q) + self.pick(["", "--", "[[", "]]"])
        if not terminated: s = without(self.text(), "\\", "\r", "\n", q) + self.pick(["x", "\\n~", "\\" + q, "\\\\"])
        if terminated: return ("string", [(q + s + q, "string")])
        return ("unterminated", [(q + s, "string"), ("\n", None)])
    def bracket(self, kind, mid):
        n = self.pick([0, 0, 1, 2, self.r.randint(0, 12)]); term = "]" + "=" * n + "]"
        while True:
            t = "".join(self.pick(["]]", "[[", "]", "=", "\n", "]" + "=" * max(0, n - 1) + "]", "]" + "=" * n, "[" + "=" * n + "[", "--", "\"", "\\", self.text()]) for _ in range(self.r.randint(0, 7)))
            if (t + term).find(term) == len(t): break
        return n, t, term
    def long_string(self):
        n, t, term = self.bracket(0, 0)
        return ("long string", [("[" + "=" * n + "[", "string"), (t, "string"), (term, "string")])
    def comment(self):
        if self.p(.5):
            n, t, term = self.bracket(0, 0)
            return ("long comment", [("--[" + "=" * n + "[", "comment_delim"), (t, "comment"), (term, "comment_delim")])
        t = "".join(c for c in self.pick(["", "", "-", "[", "[=", "[==x", "]]", "\"", " [[", " \\"]) + self.text() if c not in "\r\n")
        if t.lstrip("=")[:1] == "[" and t[:1] == "[": t = " " + t
        h = t[1:].lstrip("=") if t[:1] == "[" else ""
        if h[:1] == "[": t = " " + t
        return ("comment", [("--", "comment_delim"), (t, "comment"), (self.pick(["\n", "\n", "\n", "\r"]), None)])
    def element(self):
        x = self.r.random()
        if x < .20: return self.ident()
        if x < .35: return self.keyword()
        if x < .57: return self.op()
        if x < .59: return self.attrib()
        if x < .61: return self.label()
        if x < .73: return self.number()
        if x < .82: return self.string()
        if x < .84: return self.string(False)
        if x < .90: return self.long_string()
        if x < .92: return self.other()
        return self.comment()
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        if ka in ("space", "comment", "long comment", "unterminated") or kb == "space": return ""
        ops = ("operator", "label", "attribute")
        if kb in ("comment", "long comment"): return " " if ta[-1] == "-" else ""
        if ka in ops:
            if kb in ops:
                if ta[-1] == "[" and tb[0] in "[=": return " "
                x = ta if ka == "operator" else ta[-2:] if ka == "label" else ">"; y = tb if kb == "operator" else tb[:2] if kb == "label" else "<"
                return "" if self.joins(x, y) else " "
            if ta[-1] == "<" and tb.startswith("const"): return " "
            if ta[-1] == "[" and tb[0] in "[=": return " "
            if kb == "number" and ta[-1] == ".": return " "
            return ""
        if kb in ops: return " " if ka == "number" and tb[0] == "." else ""
        if ka == "other character" or kb == "other character" or ka in ("string", "long string") or kb in ("string", "long string", "unterminated"): return ""
        return " "
    def doc(self): return lex.Doc(self.sequence(self.size()))

def c35(chk):
    lex.check(chk, "lua", corpus.LANG_ID["lua"], Lua, 60000 if chk.thorough else 24000)
    chk.cov["rule"] = lex.RULE
