"""C32: Java and Kotlin."""
import corpus, lex
from gen import *

D = "0123456789"
def line_ok(t): return "".join(c for c in t if c not in "\r\n")

class Curly(TokenGen):
    """What Java and Kotlin share."""
    def setup(self): pass
    def ident(self): return ("identifier", [(self.name(), "name")])
    def line_comment(self):
        t = line_ok(self.pick(["", "", "/", "*", "!", "/*", "\"", "'", "*/", " TODO \\"]) + self.text())
        return ("line comment", [("//", "comment_delim"), (t, "comment"), (self.pick(["\n", "\n", "\r\n", "\r"]), None)])
    def block_text(self):
        t = self.pick(["", "", "*", "/", "//", "\n", "\"", " * "]) + self.text() + self.pick(["", "", "*", "**", "/", "\n", "//", "\r\n * x"])
        return t
    def comment(self): return self.block_comment() if self.p(.6) else self.line_comment()
    def keep(self, t, quote): return "".join(c for c in t if c not in "\\\r\n" and c not in quote)
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        if not ta or not tb or ka == "space" or kb == "space" or ka in ("line comment", "block comment"): return ""
        if ka == "unterminated": return ""
        if kb in ("line comment", "block comment"): return " " if ta.endswith("/") else ""
        wordy = ("identifier", "keyword", "annotation", "jump", "label")
        if ka == "annotation" and kb in ("operator", "number") and tb[0] in ".:[": return " "
        if ka == "operator" and kb == "operator":
            return "" if self.joins(ta, tb) and not (ta[-1] == "@" and tb[0] == "[") else " "
        if ka == "operator":
            if kb in ("number", "range"):
                if tb[0] == ".": return "" if self.joins(ta, ".") else " "
                if ta.endswith("."): return "" if self.split(ta)[-1].endswith("..") else " "
            if ta.endswith("@") or ta[-1] == "!" and tb in ("in", "is"): return " "
            return ""
        if kb == "operator":
            if ka == "number" and tb[0] in "+-" and ta[-1] in "eEpP": return " "
            if ka in ("number", "range") and tb[0] == "." and not (tb.startswith("..") and ta.isdigit() and self.ranges): return " "
            if tb[0] in "@?" and ka in wordy: return " "
            if tb[0] == "." and ka in wordy and ta.endswith("@"): return " "
            return ""
        if kb == "annotation" and ka in ("identifier", "keyword", "jump", "label", "range"): return " "
        if ka in ("string", "text block", "character", "raw string"): return " " if tb[0] in "\"'" else ""
        if kb in ("string", "character", "text block", "raw string", "unterminated", "annotation", "brace"): return ""
        if ka == "brace" or kb == "brace": return ""
        return " "
    ranges = False
    def doc(self):
        self.setup()
        return lex.Doc(self.rejoin(self.sequence(self.size())))

JT = TABLES["java"]
JW = [(c, t) for c, t, _ in JT if c[0].isalpha() or c == "_"]
JOPS = {c: t for c, t, _ in JT if not (c[0].isalpha() or c == "_") and '"' not in c}
JALL = {c for c, _ in JW}
class Java(Curly):
    exact = lex.EXACT | {"annotation", "annotation type", "block comment", "character", "line comment"}
    split = staticmethod(munch(list(JOPS) + ["//", "/*"]))
    def name(self):
        if self.p(.2): return self.near([c for c, _ in JW], JALL)
        return self.word(start=ASCII_START + "$", cont=ASCII_CONT + "$", avoid=JALL)
    def keyword(self): return ("keyword", [self.pick(JW)])
    def op(self):
        if self.p(.15): s, parts = self.run(list(JOPS), ("@[",)); return ("operator", [(p, JOPS[p]) for p in parts])
        o = self.pick(list(JOPS)); return ("operator", [(o, JOPS[o])])
    BAD = ["0x", "0X", "0b", "0B", "0x_", "0b_", "%d_", "%d_.%d", "%d._%d", "0x%h_", "0x_%h", "0b%b_", "0b_%b", "%de", "%dE", "%de+", "%dE-", "%d_e%d", "%de_%d", "%de%d_", "%d.%dE+", "%d.%d_", ".%d_", ".%de",
           "0xL", "0bl", "%d_L", "%d_f", "%deF", "%d_e%df", "0x.", "0x.p%d", "0x%hp", "0x%h_p%d", "0x%hp_%d", "0x%h.%hp", "0x%h.%h_p1"]
    def number(self):
        if self.p(.07): return ("number", [(self.bad_number(self.BAD), "error")])
        if self.p(.04): return ("number", self.beyond("0b", "0B"))
        sep = self.pick(["_", "__"]) if self.p(.4) else None; k = self.r.randrange(7); suf = "lL"
        if k < 2:
            p, b = self.pick([("0x", HEX), ("0X", HEX), ("0b", "01"), ("0B", "01")])
            segs = [(p, "number_decor")] + digit_segs(self.digits(b, sep=sep))
        elif k == 2: segs = digit_segs("0" + self.digits("01234567", sep=sep) if self.p(.7) else "0")
        elif k == 3: segs = digit_segs(self.digits(D, sep=sep)); suf = "lLfFdD"
        elif k == 4:
            a, b = self.digits(HEX, sep=sep), self.digits(HEX, sep=sep) if self.p(.6) else ""
            segs = [(self.pick(["0x", "0X"]), "number_decor")] + digit_segs(a if self.p(.8) or not b else "") + ([(".", "number_delim")] + digit_segs(b) if b else [])
            segs += [(self.pick("pP") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep)); suf = "fFdD"
        else:
            a = self.digits(D, sep=sep) if self.p(.8) else ""; b = self.digits(D, sep=sep) if self.p(.8) or not a else ""; e = self.p(.5)
            segs = digit_segs(a) + ([(".", "number_delim")] + digit_segs(b) if b else [])
            if e: segs += [(self.pick("eE") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep))
            suf = "fFdD" if b or e else "lLfFdD"
        if self.p(.35): segs.append((self.pick(suf), "number_decor"))
        return ("number", segs)
    def escape(self):
        k = self.r.randrange(8)
        if k < 4: return ("\\" + self.pick("bstnfr\"'\\"), "string_escape"), ""
        if k == 4:
            o = self.pick(["0", "00", "000", "7", "77", "377", "3", "37", "12", "177", "4", "47", "40"])
            return ("\\" + o, "string_escape"), "01234567"
        if k < 7: return ("\\u" + self.digits(HEX, 4), "string_escape"), ""
        return ("\\", "error"), "bad"
    def body(self, quote, extra=""):
        segs = []
        for _ in range(self.r.randint(0, 4) if self.p(.9) else self.r.randint(4, 30)):
            if self.p(.4):
                e, bad = self.escape(); segs.append(e); t = self.keep(self.text(), quote)
                if bad == "bad": t = self.pick("qxyzU8 9é(") + t
                else:
                    t = t.lstrip(bad) if bad else t
                    if bad and not t: t = "~"
                if t: segs.append((t, "string"))
            else:
                t = self.keep(self.text(), quote)
                if segs and segs[-1][1] == "string_escape" and t[:1].isdigit(): t = "~" + t
                if t: segs.append((t, "string"))
        return segs
    def string(self): return ("string", [('"', "string_delim")] + self.body('"') + [('"', "string_delim")])
    def unterminated(self): return ("unterminated", [('"', "string_delim")] + (self.body('"') or [("x", "string")]) + [(self.pick(["\n", "\r\n"]), None)])
    def char(self):
        if self.p(.6): s = (self.pick(self.keep(TEXT, "'")), "string")
        else:
            s, bad = self.escape()
            if bad == "bad": s = ("\\n", "string_escape")
        return ("character", [("'", "string_delim"), s, ("'", "string_delim")])
    def text_block(self):
        segs = [('"""', "string_delim"), (self.pick(["", "", " ", "\t "]) + self.pick(["\n", "\n", "\r\n"]), None)]
        for _ in range(self.r.randint(0, 6)):
            k = self.r.randrange(6)
            if k == 0: segs.append((self.pick(['"', '""']) + self.pick(["x", " ", "\n"]), "string"))
            elif k == 1:
                e, bad = self.escape(); segs.append(e); segs.append(("q" if bad else "~", "string"))
            elif k == 2: segs += [("\\" + self.pick(["\n", "\r\n"]), "string_escape"), ("  ~", "string")]
            elif k == 3: segs += [('\\"', "string_escape"), ('""', "string"), ('x', "string")]
            else: segs.append((self.text().replace('"', "").replace("\\", "").replace("\r", "") + self.pick(["", "\n", "\n  ", "//", "/*", "'"]), "string"))
        if segs[-1][1] is None and segs[-1][0].endswith("\r"): segs.append(("~", "string"))
        return ("text block", segs + [('"""', "string_delim")])
    def block_comment(self):
        t = without(self.block_text(), "*/")
        return ("block comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def annotation(self):
        if self.p(.15): return ("annotation type", [("@", "symbol_punc"), ("interface", "keyword"), (" ", None), ("x", "name")])
        segs = [("@", "name_attr_delim")]
        for i in range(self.pick([1, 1, 1, 2, 3])):
            if i: segs.append((".", "name_attr_delim"))
            w = self.name() if self.p(.8) else self.pick(["Override", "class", "int"])
            segs.append((w if w != "interface" else "x", "name_attr"))
        return ("annotation", segs)
    def element(self):
        x = self.r.random()
        if x < .22: return self.ident()
        if x < .40: return self.keyword()
        if x < .62: return self.op()
        if x < .74: return self.number()
        if x < .82: return self.string()
        if x < .84: return self.unterminated()
        if x < .88: return self.char()
        if x < .91: return self.text_block()
        if x < .96: return self.annotation()
        return self.comment()

KT = TABLES["kotlin"]
JUMPS = [(c, t) for c, t, _ in KT if c.endswith("@") and len(c) > 1]
KW = [(c, t) for c, t, _ in KT if c[0].isalpha() and not c.endswith("@") or c in ("!in", "!is")]
KOPS = {c: t for c, t, _ in KT if not c[0].isalpha() and '"' not in c and c not in ("!in", "!is", "{", "}")}
KALL = {c for c, _ in KW}
START = set(ASCII_START) | set(LETTERS); CONT = set(ASCII_CONT) | set(XCONT) | {"\u200d"}
class Kotlin(Curly):
    exact = lex.EXACT | {"annotation", "annotation list", "block comment", "brace", "character", "jump", "label", "line comment", "quoted identifier", "range"}
    split = staticmethod(munch(list(KOPS) + ["//", "/*"]))
    ranges = True
    def name(self):
        while True:
            w = self.near([c for c, _ in KW if c.isalpha()], KALL) if self.p(.2) else self.word(avoid=KALL)
            if not set(w) & set("\u0301\u203f"): return w
    def keyword(self): w, t = self.pick(KW); return ("keyword", [(w, t)])
    def jump(self): return ("jump", [self.pick(JUMPS), (self.name(), "name")])
    def label(self): return ("label", [(self.name(), "name"), ("@", "symbol_op")])
    def quoted(self):
        t = line_ok(self.text().replace("`", "")) or "a b"
        return ("quoted identifier", [("`", "name_delim"), (t, "name"), ("`", "name_delim")])
    def op(self):
        if self.p(.15): s, parts = self.run(list(KOPS), ("@[",)); return ("operator", [(p, KOPS[p]) for p in parts])
        if self.p(.03): return ("negated name", [("!", "symbol_op"), (self.near(["is", "in"], KALL), "name")])
        o = self.pick(list(KOPS)); return ("operator", [(o, KOPS[o])])
    def brace(self): return ("brace", [(self.pick("{}"), "symbol_brace")])
    def integer(self, sep): return self.pick(["0", self.pick("123456789") + (self.digits(D, sep=sep) if self.p(.7) else "")])
    BAD = ["0x", "0X", "0b", "0B", "0x_", "0b_", "%d_", "%d_.%d", "0x%h_", "0x_%h", "0b%b_", "0b_%b", "%de", "%dE", "%de+", "%dE-", "%d_e%d", "%de_%d", "%de%d_", "%d.%dE+", "%d.%d_", ".%d_", ".%de",
           "0xL", "0bU", "%d_L", "%d_f", "%deF", "%d_e%df", "0xuL", "%d_u"]
    def number(self):
        if self.p(.07): return ("number", [(self.bad_number(self.BAD), "error")])
        if self.p(.04): return ("number", self.beyond("0b", "0B"))
        sep = self.pick(["_", "__"]) if self.p(.4) else None; k = self.r.randrange(6)
        if k < 2:
            p, b = self.pick([("0x", HEX), ("0X", HEX), ("0b", "01"), ("0B", "01")])
            segs = [(p, "number_decor")] + digit_segs(self.digits(b, sep=sep)); suf = ["L", "u", "U", "UL", "uL"]
        elif k < 4: segs = digit_segs(self.integer(sep)); suf = ["L", "u", "U", "UL", "uL", "f", "F"]
        else:
            a = self.integer(sep) if self.p(.8) else ""; b = self.digits(D, sep=sep) if self.p(.7) or not a else ""; e = self.p(.5) or not b
            segs = digit_segs(a) + ([(".", "number_delim")] + digit_segs(b) if b else [])
            if e: segs += [(self.pick("eE") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep))
            suf = ["f", "F"]
        if self.p(.35): segs.append((self.pick(suf), "number_decor"))
        return ("number", segs)
    def member(self):
        a = digit_segs(self.integer(None))
        if self.p(.5): return ("range", a + [("..", "symbol_punc")] + digit_segs(self.integer(None)))
        return ("range", a + [(".", "symbol_punc"), (self.name(), "name")])
    def escape(self):
        k = self.r.randrange(6)
        if k < 4: return ("\\" + self.pick("tbrn'\"\\$"), "string_escape"), ""
        if k == 4: return ("\\u" + self.digits(HEX, 4), "string_escape"), ""
        return ("\\", "error"), self.pick("qxyU0 é(")
    def template(self, depth):
        if self.p(.4) or depth > 2:
            w = self.name() if self.p(.8) else self.pick(["this", "it", "if"])
            return [("$" + w, "string_interpolation")], CONT
        its = [("start", [("${", "string_interpolation_delim")])]; level = 0
        self.depth = depth + 1
        for it in self.sequence(self.r.randint(0, 5)):
            t = self.text_of(it)
            if it[0] == "brace":
                if t == "}" and level == 0: continue
                level += 1 if t == "{" else -1
            its.append(it)
        its += [("brace", [("}", "symbol_brace")])] * level
        its.append(("brace", [("}", "string_interpolation_delim")]))
        self.depth = depth
        its = super().rejoin(its)
        return [s for it in its for s in it[1]], ""
    def lone(self, s, nxt):
        """Whether a dollar sign in s, followed by nxt, starts a template."""
        s += nxt
        return any(c == "$" and (s[i + 1:i + 2] == "{" or s[i + 1:i + 2] in START) for i, c in enumerate(s) if i + 1 < len(s))
    def body(self, quote, raw):
        segs, bad, depth = [], "", getattr(self, "depth", 0)
        for _ in range(self.r.randint(0, 4) if self.p(.93) else self.r.randint(4, 25)):
            x = self.r.random()
            if x < .25 and quote != "'":
                s, bad = self.template(depth); segs += s; continue
            if x < .45 and not raw:
                s, t = self.escape(); segs.append(s); bad = ""
                if not t: continue
            else: t = self.text()
            t += self.text() if self.p(.5) else ""
            if raw: t = t.replace('"', "").replace("\r", "") + self.pick(["", "\n", '"x', '""~', "\\"])
            else: t = self.keep(t, quote)
            if bad and t[:1] in bad and t: t = "~" + t
            if quote != "'":
                i = 0
                while i < len(t):
                    if t[i] == "$" and (t[i + 1:i + 2] == "{" or t[i + 1:i + 2] and t[i + 1] in START): t = t[:i + 1] + "~" + t[i + 1:]
                    i += 1
                if t.endswith("$"): t += "~"
            if t: segs.append((t, "string")); bad = ""
        return segs
    def string(self):
        return ("string", [('"', "string_delim")] + self.body('"', False) + [('"', "string_delim")])
    def unterminated(self): return ("unterminated", [('"', "string_delim"), ("x", "string")] + self.body('"', False) + [(self.pick(["\n", "\r\n"]), None)])
    def raw(self):
        b = self.body('"', True)
        if b and b[-1][1] == "string" and b[-1][0].endswith('"'): b[-1] = (b[-1][0] + "~", "string")
        return ("raw string", [('"""', "string_delim")] + b + [(self.pick(["", "", "", '"', '""']) if b else "", "string"), ('"""', "string_delim")])
    def char(self):
        if self.p(.6): s = (self.pick(self.keep(TEXT, "'")), "string")
        else:
            s, bad = self.escape()
            if bad: s = ("\\n", "string_escape")
        return ("character", [("'", "string_delim"), s, ("'", "string_delim")])
    def block_comment(self, depth=0):
        plain = lambda: without(self.block_text(), "*/", "/*")
        t = plain()
        while self.p(.25) and depth < 4:
            if t[-1:] in ("/", "*"): t += " "
            t += "/*" + self.inner(depth + 1) + "*/" + plain()
        if t.endswith("/"): t += " "
        return ("block comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def inner(self, depth):
        t = without(self.text(), "*/", "/*")
        if t[:1] == "/" : t = " " + t
        if self.p(.3) and depth < 5:
            if t[-1:] in ("/", "*"): t += " "
            t += "/*" + self.inner(depth + 1) + "*/"
        return t + " " if t.endswith("/") else t
    def dotted(self):
        segs = []
        for i in range(self.pick([1, 1, 1, 2, 3])): segs += ([(".", "name_attr_delim")] if i else []) + [(self.name() if self.p(.9) else self.pick(["get", "in", "class"]), "name_attr")]
        return segs
    def annotation(self):
        segs = [("@", "name_attr_delim")]; k = self.r.randrange(5)
        many = lambda: [("[", "symbol_square")] + [s for i in range(self.r.randint(1, 3)) for s in ([(self.pick([" ", "\n", "  "]), None)] if i else []) + self.dotted()] + [("]", "symbol_square")]
        if k < 2: return ("annotation", segs + self.dotted())
        if k == 2: return ("annotation list", segs + many())
        segs += [(self.pick(["get", "set", "file", "field"]), "name_attr"), (":", "name_attr_delim")]
        return ("annotation", segs + self.dotted()) if k == 3 else ("annotation list", segs + many())
    def element(self):
        x = self.r.random()
        if x < .20: return self.ident()
        if x < .35: return self.keyword()
        if x < .38: return self.jump()
        if x < .40: return self.label()
        if x < .42: return self.quoted()
        if x < .58: return self.op()
        if x < .62: return self.brace()
        if x < .72: return self.number()
        if x < .75: return self.member()
        if x < .84: return self.string() if getattr(self, "depth", 0) < 3 else self.ident()
        if x < .85 and not getattr(self, "depth", 0): return self.unterminated()
        if x < .88: return self.char()
        if x < .91 and getattr(self, "depth", 0) < 3: return self.raw()
        if x < .95: return self.annotation()
        return self.comment()
    def sep(self, a, b):
        if a[0] == "start" or b[0] == "brace": return ""
        if a[0] == "brace": return ""
        if a[0] == "label": return " "
        if a[0] == "keyword" and self.text_of(a) == "as?" and self.text_of(b)[0] in ".:" : return ""
        return super().sep(a, b)
    def rejoin(self, items):
        out, level = [], 0
        for kind, segs in super().rejoin(items):
            if kind == "brace":
                t = segs[0][0]
                if t == "{": level += 1
                elif level: level -= 1
                else: out.append((kind, [(t, "error")])); continue
                segs = [(t, "symbol_brace")]
            out.append((kind, segs))
        return out

def c32(chk):
    n = 40000 if chk.thorough else 12000
    lex.check(chk, "java", corpus.LANG_ID["java"], Java, n)
    lex.check(chk, "kotlin", corpus.LANG_ID["kotlin"], Kotlin, n)
    chk.cov["rule"] = lex.RULE
