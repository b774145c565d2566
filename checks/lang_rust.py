"""C33: Rust."""
import corpus, lex
from gen import *

D = "0123456789"
T = TABLES["rust"]
WORDS = [(c, t) for c, t, _ in T if c[0].isalpha()]
ALL = {c for c, _ in WORDS} | {"_"}
OPS = {c: t for c, t, _ in T if not c[0].isalpha() and c not in ("\\", "<-")}
CONT = set(ASCII_CONT) | set(XCONT) | {"\u200d"}
class Rust(TokenGen):
    exact = lex.EXACT | {"attribute", "block comment", "character", "label", "lifetime", "line comment", "macro", "range", "raw identifier", "raw string"}
    SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n  ", "\r\n", "\u2028", "\u200e ", "\u0085", "\v", "\f"]
    split = staticmethod(munch(list(OPS) + ["//", "/*", "<-"]))
    def name(self):
        if self.p(.2): return self.near([c for c, _ in WORDS], ALL)
        if self.p(.1): return self.pick(["r", "b", "br", "c", "cr", "rb", "u", "e", "E3", "x"])
        return self.word(avoid=ALL)
    def ident(self): return ("identifier", [(self.name(), "name")])
    def keyword(self): return ("keyword", [self.pick(WORDS)])
    def rawname(self): return self.pick([c for c, _ in WORDS if c not in ("crate", "self", "super", "Self")]) if self.p(.5) else self.name()
    def raw_ident(self):
        # these words cannot be raw
        if self.p(.15): return ("raw identifier", [(self.pick(["r#", "r#", "'r#"]) + self.pick(["crate", "self", "super", "Self", "_"]), "error")])
        return ("raw identifier", [("r#", "name_delim"), (self.rawname(), "name")])
    def macro(self):
        if self.p(.2): return ("macro", [("r#", "name_macro_delim"), (self.rawname(), "name_macro"), ("!", "name_macro_delim")])
        return ("macro", [(self.name(), "name_macro"), ("!", "name_macro_delim")])
    def lifetime(self):
        w = self.pick([self.name(), self.name(), "a", "static", "_", "_x"]); d = "'"
        if self.p(.15): w, d = self.rawname(), "'r#"
        if self.p(.35): return ("label", [(d, "name_label_delim"), (w, "name_label"), (":", "symbol_punc")])
        return ("lifetime", [(d, "name_lifetime_delim"), (w, "name_lifetime")])
    def op(self):
        if self.p(.15): s, parts = self.run(list(OPS), ("#[", "#!")); return ("operator", [(p, OPS[p]) for p in parts])
        o = self.pick(list(OPS)); return ("operator", [(o, OPS[o])])
    BAD = ["0x", "0b", "0o", "0x_", "0b_", "0o_", "%de", "%dE", "%de+", "%dE-", "%d.%de", "%d.%dE+", "%d_%de", "0xu8", "0bi64", "0ou8", "%deu8", "%def32", "%de+f64", "0x_u8", "0b%be", "0o%oe5", "0b%bE1", "0b%b_e"]
    def number(self):
        if self.p(.07): return ("number", [(self.bad_number(self.BAD), "error")])
        if self.p(.04): return ("number", self.beyond("0b", "0o"))
        sep = self.pick(["_", "__"]) if self.p(.4) else None; k = self.r.randrange(6); tail = self.pick(["", "", "_"]) if sep else ""
        if k < 2:
            p, b = self.pick([("0x", HEX), ("0o", "01234567"), ("0b", "01")])
            segs = [(p, "number_decor")] + digit_segs(self.pick(["", "", "_"]) + self.digits(b, sep=sep) + tail)
            suf = ["u8", "i64", "usize", "u128", "xyz"] if b != HEX else ["u8", "i64", "usize", "u128", "xyz"]
        elif k < 4: segs = digit_segs(self.digits(D, sep=sep) + tail); suf = ["u8", "i64", "usize", "f32", "f64", "kg2"]
        else:
            b = self.digits(D, sep=sep) if self.p(.75) else ""; e = self.p(.5) or not b
            segs = digit_segs(self.digits(D, sep=sep) + tail) + ([(".", "number_delim")] + digit_segs(b) if b else [])
            if e: segs += [(self.pick("eE") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep) + tail)
            suf = ["f32", "f64", "x"]
        if self.p(.4): segs.append((self.pick(suf), "number_decor"))
        return ("number", segs)
    def member(self):
        a = digit_segs(self.digits(D))
        if self.p(.5): return ("range", a + [(self.pick(["..", "..="]), "symbol_op")] + digit_segs(self.digits(D)))
        return ("range", a + [(".", "symbol_punc"), (self.name(), "name")])
    def escape(self, uni=True):
        k = self.r.randrange(8)
        if k < 4: return "\\" + self.pick("'\"nrt\\0")
        if k < 6 or not uni: return "\\x" + self.digits(HEX, 2)
        return "\\u{" + self.digits(HEX, self.r.randint(1, 6)) + "}"
    def body(self, uni):
        segs = []
        for _ in range(self.r.randint(0, 4) if self.p(.92) else self.r.randint(4, 30)):
            x = self.r.random()
            if x < .35: segs.append((self.escape(uni), "string_escape"))
            elif x < .42: segs += [("\\" + self.pick(["\n", "\r\n"]), "string_escape"), (self.pick(["", "  ", "x"]), "string")]
            elif x < .46: segs += [("\\", "error"), (self.pick("qUa é("), "string")]
            else: segs.append((without(self.text() + self.pick(["", "", "\n", "//", "/*", "r#"]), '"', "\\", "\r"), "string"))
        return segs
    def suffix(self): return [(self.name(), "error")] if self.p(.05) else []
    def string(self):
        pre = self.pick(["", "", "", "b", "c"])
        return ("string", [(pre, "string_decor"), ('"', "string_delim")] + self.body(pre != "b") + [('"', "string_delim")] + self.suffix())
    def raw(self):
        n = self.pick([0, 1, 1, 2, 3, self.r.randint(0, 20)]); h = "#" * n; term = '"' + h
        while True:
            t = "".join(self.pick(['"', "#", '"' + h[1:], "\\", "\n", self.text(), "'", "//", 'r"']) for _ in range(self.r.randint(0, 7))).replace("\r", "")
            if (t + term).find(term) == len(t): break
        return ("raw string", [(self.pick(["r", "br"]), "string_decor"), (h + '"', "string_delim"), (t, "string"), (term, "string_delim")] + self.suffix())
    def char(self):
        b = self.p(.35)
        if self.p(.5): s = (self.pick([c for c in TEXT if c not in "'\\" and (not b or ord(c) < 128)]), "string")
        else: s = (self.escape(not b), "string_escape")
        return ("character", [("b" if b else "", "string_decor"), ("'", "string_delim"), s, ("'", "string_delim")] + self.suffix())
    def line_comment(self):
        t = "".join(c for c in self.pick(["", "", "/", "!", "*", "/*", "\"", "'", "*/", " x \\"]) + self.text() if c not in "\r\n")
        return ("line comment", [("//", "comment_delim"), (t, "comment"), (self.pick(["\n", "\n", "\r\n"]), None)])
    def inner(self, depth=0):
        t = self.pick(["", "", "*", "!", "//", "\n", "\"", " * "]) + self.text() + self.pick(["", "", "*", "**", "\n", "//"])
        t = without(t, "*/", "/*")
        if depth and t[:1] == "/": t = " " + t
        while self.p(.25) and depth < 4:
            if t[-1:] in ("/", "*"): t += " "
            t += "/*" + self.inner(depth + 1) + "*/" + without(self.text(), "*/", "/*")
        return t + " " if t.endswith("/") else t
    def block_comment(self): return ("block comment", [("/*", "comment_delim"), (self.inner(), "comment"), ("*/", "comment_delim")])
    def comment(self): return self.block_comment() if self.p(.6) else self.line_comment()
    def attribute(self): return ("attribute", [("#", "symbol_punc"), (self.pick(["", "!"]), "symbol_op"), ("[", "symbol_square"), (self.name(), "name"), ("]", "symbol_square")])
    def element(self):
        x = self.r.random()
        if x < .18: return self.ident()
        if x < .33: return self.keyword()
        if x < .36: return self.raw_ident()
        if x < .40: return self.macro()
        if x < .46: return self.lifetime()
        if x < .62: return self.op()
        if x < .72: return self.number()
        if x < .75: return self.member()
        if x < .82: return self.string()
        if x < .87: return self.raw()
        if x < .92: return self.char()
        if x < .94: return self.attribute()
        return self.comment()
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        if ka == "space" or kb == "space" or ka in ("line comment", "block comment"): return ""
        if kb in ("line comment", "block comment"): return " " if ta.endswith("/") and ka == "operator" else ""
        wordy = ("identifier", "keyword", "raw identifier", "lifetime", "number", "range")
        if ka == "macro": return " " if tb[0] == "=" else ""
        if ka == "label": return " " if tb[0] == ":" else ""
        if ka in ("operator", "attribute"):
            if kb == "operator": return "" if ka == "attribute" or self.joins(ta, tb) else " "
            if kb in ("number", "range") and ta.endswith("."): return " "
            if kb in ("lifetime", "label", "character"): return ""
            return ""
        if kb in ("operator", "attribute"):
            if ka == "range" and tb[0] in "!#": return " "
            if ka == "number" and tb[0] in "+-" and ta[-1] in "eE": return " "
            if ka == "number" or ka == "range": return " " if tb[0] == "." and not (tb.startswith("..") and ta.isdigit()) else ""
            if ka == "lifetime": return " " if tb[0] in ":'#" else ""
            if ka in ("identifier", "raw identifier", "keyword", "range"): return " " if tb[0] in "!#" else ""
            return ""
        if ka in ("string", "raw string", "character"): return " " if tb[0] not in "\"'" else ""
        return " "
    def doc(self): return lex.Doc(self.sequence(self.size()))

def c33(chk):
    lex.check(chk, "rust", corpus.LANG_ID["rust"], Rust, 60000 if chk.thorough else 24000)
    raw = lambda h: [("raw string", [("cr", "string_decor"), (h + '"', "string_delim"), ("a\\n", "string"), ('"' + h, "string_delim")])]
    lex.witness(chk, "rust", corpus.LANG_ID["rust"], {"raw-c-string": raw(""), "raw-c-string-with-hash": raw("#")})
    chk.cov["rule"] = lex.RULE
