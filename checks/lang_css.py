"""C37: CSS."""
import corpus, lex
from gen import *
from lex import ANY

D = "0123456789"
SEL, PROP = "markup_tag", "markup_attr"
U = "éßñøΩжЯ中文字語😀\u00a0\u0301\u200d\ufeff\U0010ffff"
UNITS = ["px", "em", "rem", "%", "vh", "s", "deg", "fr", "x", "Q", "dpi", "n"]
PROPS = ["color", "margin", "background-color", "--x", "-webkit-box-flex", "--my-Var", "z-index", "grid-template-areas", "--0", "_zoom"]
class Css(Gen):
    exact = frozenset(("number", "name", "important", "hash", "at rule", "brace", "brackets", "colon", "combinator", "comma", "comment", "comment delimiter", "function", "nth", "operator", "prelude", "property", "punctuation", "semicolon"))
    def ws(self, must=False):
        if not must and self.p(.5): return []
        if self.p(.06): return [self.comment()] if not must else [("space", [(" ", None)]), self.comment(), ("space", [(" ", None)])]
        return [("space", [(self.pick([" ", " ", " ", "  ", "\n", "\n  ", "\t", "\r\n", "\f"]), None)])]
    def comment(self):
        t = without(self.text() + self.pick(["", "", "\n", "*", "/", " * / ", "}", "\"", "<!--"]), "*/")
        while ("/*" + t + "*/").find("*/", 2) != len(t) + 2: t = t[:-1]
        return ("comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def hexesc(self, nxt):
        """A hexadecimal escape with what ends it."""
        h = self.digits(HEX, self.r.randint(1, 6))
        return h + self.pick([" ", "\n", "\t", "\f", "\r\n"])
    def escape(self): return "\\" + (self.hexesc("") if self.p(.5) else self.pick("#.:{}()[]\"'\\!@,;+~> -/g_z*€中😀"))
    def ident(self, t, avoid=()):
        """An identifier as segments."""
        while True:
            s = self.word(cont=ASCII_CONT + "--", uni=False, avoid=avoid)
            if self.p(.12): i = self.r.randint(0, len(s)); s = s[:i] + self.pick(U) + s[i:]
            if self.p(.12): s = "-" + s
            elif self.p(.08): s = "--" + s
            elif self.p(.03): s = "--"
            if s.casefold() not in ("url",): break
        if self.p(.93): return [(s, t)]
        i = self.r.randint(0, len(s)) if s[0] != "-" else len(s)
        if s == "--": return [(s, t)]
        return [x for x in ((s[:i], t), (self.escape(), "string_escape"), (s[i:], t)) if x[0]]
    def number(self, sign=True):
        s = self.pick(["", "", "", "-", "+"]) if sign else ""
        k = self.r.randrange(4)
        if k == 0: s += self.digits(D)
        elif k == 1: s += self.digits(D) + "." + self.digits(D)
        elif k == 2: s += "." + self.digits(D)
        else: s += str(self.r.randint(0, 300))
        if self.p(.12): s += self.pick("eE") + self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 3))
        if self.p(.5): return ("number", [(s, "number"), (self.pick(UNITS + ["e", "e-x", "--x", "-moz", "é", "E_"]), "number_decor")])
        return ("number", [(s, "number")])
    def string(self, term=True):
        q = self.pick("'\""); ss = [(q, "string")]
        for _ in range(self.r.randint(0, 4) if self.p(.95) else self.r.randint(4, 20)):
            x = self.r.random()
            if x < .4: ss.append((self.escape() if self.p(.8) else "\\" + self.pick(["\n", "\r\n", "\f"]), "string_escape"))
            else: ss.append((without(self.text() + self.pick(["", "/*", "//", ";", "}", "url("]), "\\", "\n", "\r", "\f", q), "string"))
        if term: return ("string", ss + [(q, "string")])
        return ("unterminated string", ss + [(self.pick(["\n", "\r\n", "\f"]), None)])
    def url(self):
        s = [(self.pick(["url", "url", "URL", "Url"]), "keyword"), ("(", "symbol_parens"), (self.pick(["", "", " ", "\n"]), None)]
        if self.p(.4): s += self.string()[1]
        else:
            if self.p(.2): s.append((self.escape(), "string_escape"))
            for _ in range(self.r.randint(1, 3)):
                s.append((self.pick(["http://a.b/c?d=e&f#g", "data:image/png;base64,AAAA/+==", "x.png", "//c", "{a}", "/*x", "@", "é中", "1px", "!important", "a,b"]), "string"))
                if self.p(.3): s.append((self.escape(), "string_escape"))
        return ("url", s + [(self.pick(["", "", " "]), None), (")", "symbol_parens")])
    def value(self, depth):
        x = self.r.random()
        if x < .3: return [("name", self.ident("name"))]
        if x < .5: return [self.number()]
        if x < .62:
            h = self.digits(HEX, self.pick([3, 4, 6, 8])) if self.p(.7) else self.word(uni=False)
            return [("hash", [("#" + h, "value")])]
        if x < .72: return [self.string()]
        if x < .8: return [self.url()]
        if x < .92 and depth > 0: return self.function(depth)
        if x < .95: return [self.unterminated()] if self.p(.3) else [("name", [("var", "name_function")]), ("punctuation", [("(", "symbol_parens")]), ("name", [("--" + self.word(uni=False), "name")]), ("punctuation", [(")", "symbol_parens")])]
        return [("brackets", [("[", "symbol_square")]), ("name", self.ident("name")), ("brackets", [("]", "symbol_square")])]
    def unterminated(self): return self.string(False)
    def function(self, depth):
        out = [("function", [(t, "name_function" if ty == "name" else ty) for t, ty in self.ident("name")]), ("punctuation", [("(", "symbol_parens")])]
        for i in range(self.r.randint(0, 3)):
            if i:
                if self.p(.5): out += self.ws() + [("punctuation", [(",", "symbol_punc")])] + self.ws()
                else:
                    o = self.pick("+-*/")
                    out += self.ws(True) + [("operator", [(o, None if o == "/" else "symbol_op")])] + self.ws(True)
            else: out += self.ws()
            out += self.value(depth - 1)
        return out + self.ws() + [("punctuation", [(")", "symbol_parens")])]
    def values(self):
        out = []
        for i in range(self.r.randint(1, 4) if self.p(.95) else self.r.randint(5, 15)):
            if i:
                if self.p(.3): out += self.ws() + [("punctuation", [(",", "symbol_punc")])] + self.ws()
                elif self.p(.1): out += self.ws(True) + [("slash", [("/", None)])] + self.ws(True)
                else: out += self.ws(True)
            out += self.value(2)
        if self.p(.1): out += self.ws(True) + [("important", [("!" + self.pick(["", "", " ", "\n"]) + self.pick(["important", "IMPORTANT", "Important"]), "keyword")])]
        return out
    def declaration(self):
        p = [(self.pick(PROPS), PROP)] if self.p(.6) else self.ident(PROP)
        return [("property", p)] + self.ws() + [("colon", [(":", "symbol_punc")])] + self.ws() + self.values()
    def compound(self, nested=False):
        """A compound selector as items. In a nested rule the names are judged like properties, and the punctuation is not judged."""
        T, P = (PROP, ANY) if nested else (SEL, SEL)
        out = []
        n = self.r.randint(1, 4)
        for i in range(n):
            x = self.r.random()
            if i == 0 and x < .35: out.append(("element", self.ident(T)))
            elif i == 0 and x < .42: out.append(("universal", [("*", ANY if nested else SEL)]))
            elif i == 0 and x < .46 and nested: out.append(("nesting", [("&", None)]))
            elif x < .62: out.append(("class", [(".", P)] + self.ident(T)))
            elif x < .75: out.append(("id", [("#", T)] + self.ident(T)))
            elif x < .88 and not nested:
                out.append(("pseudo class", [(self.pick([":", "::"]), SEL)] + self.ident(SEL)))
                if self.p(.4):
                    out.append(("punctuation", [("(", "symbol_parens")]))
                    if self.p(.5): out += self.compound()
                    else: out.append(("nth", [("2", "number"), ("n", "number_decor"), ("+1", "number")]))
                    out.append(("punctuation", [(")", "symbol_parens")]))
                    break
            elif not nested:
                out.append(("attribute", [("[", "symbol_square")] + self.ident(SEL) + ([(self.pick(["=", "^=", "|=", "$="]), None)] + self.string()[1] if self.p(.7) else []) + [("]", "symbol_square")]))
            else: out.append(("class", [(".", P)] + self.ident(T)))
        return out
    def selector(self, nested=False):
        out = self.compound(nested)
        for _ in range(self.r.randint(0, 2)):
            x = self.r.random()
            if x < .3: out += self.ws(True)
            elif x < .6: out += self.ws() + [("punctuation", [(",", "symbol_punc")])] + self.ws()
            else: out += self.ws(True) + [("combinator", [(self.pick(">~+"), "symbol_op" if nested else SEL)])] + self.ws(True)
            out += self.compound(nested)
        return out
    def block(self, depth):
        out = [("brace", [("{", "symbol_brace")])]
        n = self.r.randint(0, 4)
        for i in range(n):
            out += self.ws()
            x = self.r.random()
            if depth > 0 and x < .15: out += self.selector(True) + self.ws() + self.block(depth - 1)
            elif depth > 0 and x < .25: out += self.at_rule(depth - 1)
            else:
                out += self.declaration() + self.ws()
                if i + 1 < n or self.p(.6): out.append(("semicolon", [(";", "symbol_punc")]))
        return out + self.ws() + [("brace", [("}", "symbol_brace")])]
    def prelude(self):
        out = []
        for i in range(self.r.randint(0, 3)):
            out += self.ws(True)
            x = self.r.random()
            if x < .5: out.append(("prelude", self.ident("name_macro")))
            elif x < .6: out.append(self.string())
            elif x < .65: out.append(("comma", [(",", "symbol_punc")]))
            else:
                out += [("punctuation", [("(", "symbol_parens")]), ("prelude", self.ident("name_macro"))]
                y = self.r.random()
                if y < .7: out += self.ws() + [("colon", [(":", "symbol_punc")])] + self.ws() + [self.number()]
                elif y < .9: out += self.ws(True) + [("operator", [(self.pick("<>"), "symbol_op"), (self.pick(["", "="]), None)])] + self.ws() + [self.number(False)]
                out.append(("punctuation", [(")", "symbol_parens")]))
        return out
    def at_rule(self, depth):
        out = [("at rule", [("@", "name_macro_delim")] + self.ident("name_macro"))] + self.prelude() + self.ws()
        if self.p(.35): return out + [("semicolon", [(";", "symbol_punc")])]
        return out + self.block(depth)
    def doc(self):
        d = []
        for _ in range(max(1, self.size() // 8)):
            d += self.ws()
            x = self.r.random()
            if x < .06: d.append(self.comment())
            elif x < .1: d.append(("comment delimiter", [(self.pick(["<!--", "-->"]), "comment_delim")]))
            elif x < .35: d += self.at_rule(self.r.randint(0, 2))
            else: d += self.selector() + self.ws() + self.block(self.r.randint(0, 3))
        if self.p(.1):
            k = self.r.randrange(6)
            d.append(("space", [("\n", None)]))
            w = self.pick(["x", "x", "é", "-x", "_", "xy"])
            if k == 0: d.append(("unterminated", [("/*", "comment_delim"), (without(self.text(), "*/", "*", "/"), "comment")]))
            elif k == 1: d.append(("final hash", [("#" + w, SEL)]))
            elif k == 2: d.append(("final hash", [("a", SEL), ("{", "symbol_brace"), ("b", PROP), (":", "symbol_punc"), ("#" + w, "value")]))
            elif k == 3: d.append(("final at rule", [("@", "name_macro_delim"), (w, "name_macro")]))
            else: d.append(("unterminated", [("a", SEL), ("{", "symbol_brace"), ("b", PROP), (":", "symbol_punc"), ("'x", "string")]))
        return lex.Doc(d)
    def rejoin(self, items): return None

def c37(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "css", corpus.LANG_ID["css"], Css, 60000 if chk.thorough else 16000)
