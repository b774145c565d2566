"""C30: C and C++."""
import re
import corpus, lex
from gen import *

T = [tuple(x) for x in TABLES["cpp"]]
WORDS = [x for x in T if x[0][0].isalpha() or x[0][0] == "_"]
OPS = [x for x in T if x not in WORDS]
OPTYPE = {o: t for o, t, _ in OPS}; OPTYPE["%>"] = "symbol_brace"
ALLWORDS = {x[0] for x in WORDS}
DELIM = "".join(chr(c) for c in range(33, 127) if chr(c) not in "()\\\"")
class Cpp(TokenGen):
    exact = lex.EXACT | {"block comment", "less scope", "line comment", "line:include", "line:null directive", "raw string"}
    def __init__(self, r):
        super().__init__(r)
    def setup(self):
        self.c, self.strict = self.p(.35), self.p(.25)
        have = {"c", "c_cpp"} if self.c else {"cpp", "c_cpp"}
        if not self.strict: have |= {"ext"} | (set() if self.c else {"c"})
        self.kw = [x for x in WORDS if x[2] in have]
        self.foreign = [x[0] for x in WORDS if x[2] not in have]
        self.ops = [x[0] for x in OPS if (x[2] != "cpp" or not self.c) and x[0] not in ("#", "##", "%:", "%:%:")]
        self.longest = munch([x[0] for x in OPS if (x[2] != "cpp" or not self.c)] + ["//", "/*"])
    def split(self, s):
        # [lex.pptoken]: <:: is < followed by ::, except before : and >; C has no such rule and no ::
        m = re.search(r"<::(?![:>])", s)
        if not m: return self.longest(s)
        a = self.longest(s[:m.start() + 1])
        if self.c or a is None or a[-1][-1:] != "<": return None
        if a[-1] != "<": return self.longest(s)        # the < belongs to a longer operator
        b = self.split(s[m.start() + 1:])
        return None if b is None else a + b
    # elements
    def ident(self, type_only=None):
        if self.p(.15) and self.foreign: w = self.pick(self.foreign)
        elif self.p(.2): w = self.near([x[0] for x in self.kw], ALLWORDS)
        else: w = self.word(avoid=ALLWORDS, extra=[lambda s: s + "_t", lambda s: s + "_t1"])
        return ("identifier", [(w, "name_type" if w.endswith("_t") else "name")])
    def keyword(self):
        w, t, _ = self.pick(self.kw); return ("keyword", [(w, t)])
    def digit_segs(self, s):
        out = []
        for c in s:
            t = "number_delim" if c in "'." else "number"
            if out and out[-1][1] == t == "number": out[-1] = (out[-1][0] + c, t)
            else: out.append((c, t))
        return out
    def number(self):
        k = self.r.randrange(8); suf = ""
        D = "0123456789"; sep = "'" if self.p(.4) else None
        if k == 0: segs = [(self.pick(["0x", "0X"]), "number_decor")] + self.digit_segs(self.digits(D + "abcdefABCDEF", sep=sep)); suf = self.pick(["u", "ULL", "z", "_km", "l", "i64"])
        elif k == 1: segs = [(self.pick(["0b", "0B"]), "number_decor")] + self.digit_segs(self.digits("01", sep=sep)); suf = self.pick(["u", "ULL", "z", "_km", "l"])
        elif k == 2: segs = self.digit_segs("0" + self.digits("01234567", sep=sep)); suf = self.pick(["u", "ULL", "z", "_km", "l"])
        elif k in (3, 4): segs = self.digit_segs(self.digits(D, sep=sep)); suf = self.pick(["u", "ULL", "z", "_km", "l", "min", "_p1", "_E2"])
        elif k in (5, 6):
            a = self.digits(D, sep=sep) if self.p(.8) else ""; b = self.digits(D, sep=sep) if self.p(.8) or not a else ""
            exp = self.p(.5)
            segs = self.digit_segs(a + ("." + b if b or not exp or self.p(.5) else ""))
            if exp: segs += [(self.pick("eE"), "number_delim"), (self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 4)), "number")]
            suf = self.pick(["f", "F", "L", "f128", "bf16", "_km"])
        else:
            a = self.digits(D + "abcdefABCDEF", sep=sep); b = self.digits(D + "abcdef", sep=sep) if self.p(.7) else ""
            segs = [(self.pick(["0x", "0X"]), "number_decor")] + self.digit_segs(a + ("." + b if b or self.p(.3) else "")) + [(self.pick("pP"), "number_delim"), (self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 4)), "number")]
            suf = self.pick(["f", "L", "_km", "f64"])
        if self.p(.4): segs.append((suf, "number_decor"))
        return ("number", segs)
    def escape(self):
        k = self.r.randrange(12); H = "0123456789abcdefABCDEF"
        if k < 5: return "\\" + self.pick("'\"?\\abfnrtv"), ""
        if k == 5: n = self.r.randint(1, 3); return "\\" + self.digits("01234567", n), "01234567" if n < 3 else ""
        if k == 6: return "\\x" + self.digits(H, self.r.randint(1, 9)), H
        if k == 7: return "\\u" + self.digits(H, 4), ""
        if k == 8: return "\\U000" + self.digits(H, 5), ""
        if k == 9: return "\\u{" + self.digits(H, self.r.randint(1, 8)) + "}", ""
        if k == 10: return self.pick(["\\x{", "\\o{"]) + self.digits("01234567", self.r.randint(1, 8)) + "}", ""
        return "\\N{LATIN SMALL LETTER " + self.pick("ABC") + "}", ""
    def chars(self, quote, least=0):
        segs = []
        for _ in range(max(least, self.r.randint(0, 4) if self.p(.9) else self.r.randint(4, 30))):
            x = self.r.random()
            if x < .35:
                e, bad = self.escape(); segs.append((e, "string_escape"))
                t = "".join(c for c in self.text() if c not in "\\\n\r" and c != quote)
                while t and t[0] in bad: t = t[1:]
                if bad and not t: t = "~"
            elif x < .45: segs.append(("\\" + self.pick(["", "", " ", "\t "]) + "\n", "string")); continue
            else: t = self.text()
            t = "".join(c for c in t if c not in "\\\n\r" and c != quote)
            if segs and segs[-1][1] == "string_escape" and not t and segs[-1][0][-1] not in "}'\"" : t = "~"
            if t: segs.append((t, "string"))
        if least and not segs: segs = [("x", "string")]
        return segs
    def suffix(self): return [(self.word(avoid=ALLWORDS, start="_smhi") , "string_decor")] if self.p(.12) else []
    def string(self):
        pre = self.pick(["", "", "", "u8", "u", "U", "L"])
        return ("string", [(pre, "string_decor"), ('"', "string_delim")] + self.chars('"') + [('"', "string_delim")] + self.suffix())
    def char(self):
        pre = self.pick(["", "", "", "u8", "u", "U", "L"])
        return ("character", [(pre, "string_decor"), ("'", "string_delim")] + self.chars("'", 1) + [("'", "string_delim")] + self.suffix())
    def raw(self):
        d = self.text(DELIM, self.pick([0, 0, 1, 3, 15, 16, self.r.randint(0, 16)]))
        term = ")" + d + '"'
        while True:
            c = "".join(self.pick([")", '"', d, ")" + d, d + '"', "(", '")', "\n", "\\", "//", "/*", self.text(), "R\"(", ")" + d[:-1] + '"' if d else "x"]) for _ in range(self.r.randint(0, 8)))
            if (c + term).find(term) == len(c): break
        if self.p(.06):
            d = self.text(DELIM, self.r.randint(0, 6))
            return ("raw string", [(self.pick(["R", "u8R", "uR", "UR", "LR"]), "string_decor"), ('"' + d + self.pick(" )\\\t\v"), "error")])
        return ("raw string", [(self.pick(["R", "u8R", "uR", "UR", "LR"]), "string_decor"), ('"' + d + "(", "string_delim"), (c, "string"), (term, "string_delim")] + self.suffix())
    def line_comment(self):
        t = without(self.text().replace("\n", "").replace("\r", ""))
        if self.p(.3): t += self.pick(["\\", "\\ ", "\\\t"]) + self.pick(["\n", "\n", "\n"]) + self.text().replace("\n", "").replace("\r", "")
        if self.p(.2): t = self.pick(["/*", "\"", "'", "*/", "/", "R\"(", "#if"]) + t
        t = t.rstrip("\\ \t\v\f") + self.pick(["", "", " ", "x"])
        return ("line comment", [("//", "comment_delim"), (t, "comment"), (self.pick(["\n", "\n", "\r\n"]), None)])
    def block_comment(self):
        t = self.pick(["", "", "*", "/", "//", "\n", "\"", " * "]) + self.text() + self.pick(["", "", "*", "**", "/", "\n", "//"])
        t = without(t, "*/")
        if t.startswith("/") and self.p(.5): t = t
        if t.endswith("/") and t[-2:-1] == "*": t += "x"
        return ("block comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def comment(self): return self.block_comment() if self.p(.6) else self.line_comment()
    def op(self):
        if self.p(.15):
            s, parts = self.run(self.ops)
            if self.p(.1): s = self.pick(["<::>", "<:::", "<::", "+<::", "<<::", "<:::>", "<::::"]); parts = self.split(s)
            if parts and all(p in self.ops for p in parts) and not s.endswith(("<:", "<::", "%")): return ("operator", [(p, OPTYPE[p]) for p in parts])
        o = self.pick(self.ops); return ("operator", [(o, OPTYPE[o])])
    def udl(self): return ("literal operator", [("operator", "keyword"), ('""', "string_delim"), (self.word(start="_", avoid=ALLWORDS), "string_decor")])
    def directive(self):
        h = lambda: [(self.pick(["#", "#", "#", "%:"]), "name_macro_delim"), (self.pick(["", "", " ", "\t"]), None)]
        ws = lambda: (self.pick([" ", "  ", "\t"]), None)
        k = self.r.randrange(6)
        if k == 0:
            inc = h() + [("include", "name_macro"), (self.pick(["", " ", "\t "]), None)]
            inside = "".join(c for c in self.text() if c not in ">\r\n") or "x"
            if self.p(.05): return ("line:include", inc + [("<", "string_delim"), (inside, "string"), (self.pick(["\n", "\r\n"]), None)])
            if self.p(.6): inc += [("<", "string_delim"), (inside if self.p(.9) else "", "string"), (">", "string_delim")]
            else: inc += [(" ", None), ('"', "string_delim"), (inside.replace('"', "").replace("\\", ""), "string"), ('"', "string_delim")]
            return ("line:include", inc + self.eol())
        name = self.pick(["define", "undef", "if", "ifdef", "ifndef", "elif", "elifdef", "else", "endif", "line", "pragma", "error", "warning", "embed"]) if k < 5 else ""
        if not name: return ("line:null directive", [(self.pick(["#", "%:"]), "name_macro_delim"), (self.pick(["", " "]), None)] + self.eol())
        body = []
        els = [("identifier", self.ident()[1])]
        for _ in range(self.r.randint(0, 6)):
            x = self.r.random()
            if x < .12 and name == "define" and els: it = ("operator", [(self.pick(["#", "##", "%:", "%:%:"]), "name_macro_delim")])
            else:
                it = self.element(nodir=True)
                if "\n" in self.text_of(it) and it[0] not in ("raw string", "block comment", "string", "character"): continue
            els.append(it)
        prev, run = None, ""
        for it in els:
            if prev is None: body.append(ws())
            else:
                self.tail = run
                s = self.sep(prev, it)
                x = self.r.random()
                if x < .15: body.append((self.pick([" ", ""]) + "\\" + self.pick(["", "", " ", "\t"]) + "\n" + self.pick(["", " ", "  "]), None))
                elif s or x < .5: body.append(ws())
                run = run + self.text_of(prev) if prev[0] == "operator" and not s and x >= .5 else ""
            body += it[1]; prev = it
        if name in ("else", "endif"): body = []
        return ("line:directive", h() + [(name, "name_macro")] + body + self.eol())
    def eol(self):
        segs = [(self.pick(["", "", " "]), None)]
        if self.p(.15): return [(" ", None)] + self.line_comment()[1]
        return segs + [(self.pick(["\n", "\n", "\n", "\r\n"]), None)]
    def element(self, nodir=False):
        x = self.r.random()
        if x < .22: return self.ident()
        if x < .38: return self.keyword()
        if x < .60: return self.op()
        if x < .70: return self.number()
        if x < .78: return self.string()
        if x < .83: return self.char()
        if x < .87 and not self.c: return self.raw()
        if x < .90: return self.block_comment()
        if nodir: return self.ident()
        if self.p(.12):
            # not the first token of its line: no directive
            a = self.element(nodir=True)
            if a[0] in ("line comment", "block comment"): a = self.ident()
            w = self.pick(["define", "include", "pragma", "ifdef", "x", "elif"] + ([] if self.c else ["undef"]))
            return ("hash within a line", a[1] + [(self.pick([" ", "\t", " /*x*/ "][:2]), None), (self.pick(["#", "%:"]), "name_macro_delim"), (self.pick([" ", "\t"]), None), (w, "name")])
        if x < .93: return self.line_comment()
        if x < .98: return self.directive()
        if not self.c: return self.udl() if self.p(.5) else ("less scope", [("<", "symbol_op"), ("::", "symbol_op"), ("std", "name")])
        return self.op()
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        if kb.startswith("line:"): return "" if ta.endswith("\n") else "\n"
        if ka == "space" or kb == "space" or ka in ("line comment", "block comment") or ka.startswith("line:"): return ""
        op = lambda k: k == "operator" or k == "less scope"
        lit = ("string", "character", "raw string")
        wordy = ("identifier", "keyword", "literal operator")
        if kb == "hash within a line": return " "
        if kb in ("line comment", "block comment"): return " " if ka == "operator" and ta.endswith("/") else ""
        if kb == "less scope" and ka == "operator": return " "
        if ka == "operator":
            if op(kb): return "" if self.joins(ta, tb) and not (ta[-1] == "<" and tb[0] == ":") and not (ta.endswith(":") and tb[0] == ":") else " "
            if kb == "number": return " " if ta.endswith(".") else ""
            return ""
        if op(kb):
            if ka == "number": return " " if tb[0] in ".'" or (tb[0] in "+-" and ta[-1] in "eEpP") else ""
            return ""
        if ka in lit:
            if ta[-1] not in "'\"": return " "
            return "" if kb == "number" or (kb in lit and tb[0] in "'\"") else " "
        return " "
    def doc(self):
        self.setup()
        d = lex.Doc(self.sequence(self.size()))
        d.lang = corpus.LANG_ID["c" if self.c else "cpp"]; d.flags = 2 * self.strict + (self.p(.3))
        return d

def c30(chk):
    lex.check(chk, "cpp", 0, Cpp, 60000 if chk.thorough else 24000)
    chk.cov["rule"] = lex.RULE
