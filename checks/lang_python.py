"""C34: Python."""
import corpus, lex
from gen import *

D = "0123456789"
T = TABLES["python"]
WORDS = [(c, t) for c, t, _ in T if c[0].isalpha()]
ALL = {c for c, _ in WORDS}
OPS = {c: t for c, t, _ in T if not c[0].isalpha() and c not in ("\\", ">>>")}
PREFIX = ["r", "R", "f", "F", "b", "B", "u", "U"] + [a + b for x, y in (("r", "b"), ("r", "f")) for p, q in ((x, y), (y, x)) for a in (p, p.upper()) for b in (q, q.upper())]
class Python(TokenGen):
    exact = lex.EXACT | {"comment", "continuation"}
    SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n    ", "\r\n", "\f", "\n\t"]
    split = staticmethod(munch(list(OPS) + ["//", ">>>"]))
    def name(self):
        if self.p(.2): return self.near([c for c, _ in WORDS], ALL)
        if self.p(.1): return self.pick(["r", "b", "br", "f", "rb", "u", "e", "E3", "j", "_", "x"])
        return self.word(avoid=ALL)
    def ident(self): return ("identifier", [(self.name(), "name")])
    def keyword(self): return ("keyword", [self.pick(WORDS)])
    def op(self):
        if self.p(.15): s, parts = self.run(list(OPS)); return ("operator", [(p, OPS[p]) for p in parts])
        o = self.pick(list(OPS)); return ("operator", [(o, OPS[o])])
    def cont(self): return ("continuation", [("\\", "string_escape"), (self.pick(["\n", "\r\n"]) + self.pick(["", "  "]), None)])
    BAD = ["0x", "0X", "0b", "0B", "0o", "0O", "0x_", "0b_", "0o_", "%d_", "%d__%d", "%d_.%d", "%d._%d", "0x%h_", "0x%h__%h", "0b%b_", "0o%o_", "0o%o__%o", "%de", "%dE", "%de+", "%dE-", "%d_e%d", "%de_%d", "%de%d_", "%d.%dE+",
           "%d.e", "%d.%d_", ".%d_", ".%de", "%d_j", "%dej", "%d.%d_J", "0xj", "0bJ"]
    def number(self):
        if self.p(.07): return ("number", [(self.bad_number(self.BAD), "error")])
        if self.p(.04): return ("number", self.beyond("0b", "0B", "0o", "0O"))
        sep = "_" if self.p(.4) else None; k = self.r.randrange(6)
        if k < 2:
            p, b = self.pick([("0x", HEX), ("0X", HEX), ("0o", "01234567"), ("0O", "01234567"), ("0b", "01"), ("0B", "01")])
            segs = [(p, "number_decor")] + digit_segs(self.pick(["", "", "_"]) + self.digits(b, sep=sep)); suf = None
        elif k < 4: segs = digit_segs("0" * self.r.randint(1, 3) if self.p(.15) else self.pick("123456789") + ((sep if sep and self.p(.3) else "") + self.digits(D, sep=sep) if self.p(.8) else "")); suf = "jJ"
        else:
            a = self.digits(D, sep=sep) if self.p(.8) else ""; b = self.digits(D, sep=sep) if self.p(.7) or not a else ""; e = self.p(.5)
            segs = digit_segs(a) + ([(".", "number_delim")] + digit_segs(b) if b or not e or self.p(.3) else [])
            if e: segs += [(self.pick("eE") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep))
            suf = "jJ"
        if suf and self.p(.25): segs.append((self.pick(suf), "number_decor"))
        return ("number", segs)
    def escape(self, byte):
        """(escape, characters which must not follow)"""
        k = self.r.randrange(10)
        if k < 4: return "\\" + self.pick("\\'\"abfnrtv"), ""
        if k == 4: n = self.r.randint(1, 3); return "\\" + self.digits("01234567", n), "01234567" if n < 3 else ""
        if k == 5 or byte: return "\\x" + self.digits(HEX, 2), ""
        if k == 6: return "\\u" + self.digits(HEX, 4), ""
        if k == 7: return "\\U000" + self.digits(HEX, 5), ""
        if k == 8: return "\\N{" + self.pick(["DIGIT ONE", "EM DASH", "LATIN SMALL LETTER A"]) + "}", ""
        return "\\" + self.pick(["\n", "\r\n"]), ""
    def string(self, terminated=True):
        pre = self.pick(PREFIX) if self.p(.5) else ""
        raw, byte = "r" in pre.lower(), "b" in pre.lower()
        q = self.pick("'\""); long = terminated and self.p(.35)
        term = q * 3 if long else q
        segs, bad = [], ""
        for _ in range(self.r.randint(0, 4) if self.p(.92) else self.r.randint(4, 30)):
            if self.p(.4) and not raw:
                e, bad = self.escape(byte); segs.append((e, "string_escape")); continue
            if self.p(.4) and raw: t = "\\" + self.pick(["\\", q, "n", "x", "\n", "\r\n", "7", "{", "é" if not byte else "z"]); bad = ""
            else:
                t = without(self.text(), "\\", "\r")
                if "f" in pre.lower() and self.p(.4): t += self.pick(["{x}", "{{}}", "{x!r:>{w}}", "{a + b}"])
                if byte: t = "".join(c for c in t if ord(c) < 128)
                if long: t = t.replace(q, "") + self.pick(["", "\n", q + "~", q + q + "~", ("'" if q == '"' else '"') * 3, "#"])
                else: t = t.replace(q, "").replace("\n", "") + self.pick(["", "#"])
            if t and t[0] in bad: t = "~" + t
            if t: segs.append((t, "string")); bad = ""
        end = [(term, "string_delim")] if terminated else [(self.pick(["\n", "\r\n"]), None)]
        if not terminated:
            while segs and segs[-1][1] == "string" and raw and segs[-1][0].endswith("\\"): segs.pop()
            segs = [("x", "string")] + segs
        return ("string" if terminated else "unterminated", [(pre, "string_decor"), (term, "string_delim")] + segs + end)
    def comment(self): return ("comment", [("#", "comment_delim"), ("".join(c for c in self.pick(["", "", "!", "#", "\"\"\"", "'", " \\"]) + self.text() if c not in "\r\n\f"), "comment"), (self.pick(["\n", "\n", "\r\n"]), None)])
    def element(self):
        x = self.r.random()
        if x < .20: return self.ident()
        if x < .37: return self.keyword()
        if x < .57: return self.op()
        if x < .60: return self.cont()
        if x < .74: return self.number()
        if x < .93: return self.string()
        if x < .95: return self.string(False)
        return self.comment()
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        if ka in ("space", "comment", "continuation", "unterminated") or kb in ("space", "comment", "continuation"): return ""
        if ka == "operator":
            if kb == "operator": return "" if self.joins(ta, tb) else " "
            if kb == "number": return " " if ta[-1] == "." else ""
            return ""
        if kb == "operator": return " " if ka == "number" and (tb[0] == "." or tb[0] in "+-" and ta[-1] in "eEpP") else ""
        if ka == "keyword" and kb in ("string", "unterminated"): return "" if tb[0] in "'\"" else " "
        if ka in ("string",): return "" if kb in ("string", "unterminated") and tb[0] in "'\"" and tb[0] != ta[-1] or kb not in ("string", "unterminated") else " "
        return " "
    def doc(self): return lex.Doc(self.sequence(self.size()))

def c34(chk):
    lex.check(chk, "python", corpus.LANG_ID["python"], Python, 60000 if chk.thorough else 24000)
    chk.cov["rule"] = lex.RULE
