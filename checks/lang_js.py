"""C31: JavaScript and TypeScript."""
import corpus, lex
from gen import *

T = TABLES["js"]
WORDS = [x for x in T if x[0].isalpha()]
OPTYPE = {x[0]: x[1] for x in T if not x[0].isalpha()}
ALLWORDS = {x[0] for x in WORDS}
EXPR = {"return", "throw", "case", "delete", "void", "typeof", "yield", "await", "instanceof", "in", "is", "new", "else", "do", "default", "extends"}
WS = [" ", " ", "\n", "\t", "\r\n", "\u00a0", "\u2028", "\ufeff", "\v", "\f", "\u3000", "\r"]
NL = "\n\r\u2028\u2029"
class Js(TokenGen):
    exact = lex.EXACT | {"block comment", "hashbang", "line comment", "private name", "regular expression"}
    SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n  ", "\r\n", "\u00a0", "\u2028 ", "\ufeff"]
    def setup(self):
        self.ts = self.p(.4)
        self.kw = [x for x in WORDS if x[2] != ("js" if self.ts else "ts")]
        self.foreign = [x[0] for x in WORDS if x[2] == ("js" if self.ts else "ts")]
        self.ops = [o for o, t in OPTYPE.items() if o not in "(){}[]/@" and o not in ("/=", "<") and len(o)] + (["@"] if self.ts else [])
        self.split = munch(list(OPTYPE) + ["//", "/*"])
        self.expr, self.depth = True, 0
    def name(self, extra="$"):
        if self.p(.15) and self.foreign: return self.pick(self.foreign)
        if self.p(.2): return self.near([x[0] for x in self.kw], ALLWORDS)
        return self.word(start=ASCII_START + "$", cont=ASCII_CONT + "$", avoid=ALLWORDS)
    def ident(self): self.expr = False; return ("identifier", [(self.name(), "name")])
    def private(self): self.expr = False; return ("private name", [("#" + self.name(), "name")])
    def keyword(self):
        w, t, _ = self.pick(self.kw); self.expr = w in EXPR
        if w in ("of", "else", "do") : self.expr = None if w == "of" else True
        return ("keyword", [(w, t)])
    def number(self):
        self.expr = False
        if self.p(.08): return self.bad_number()
        if self.p(.03): return ("number", self.beyond("0b", "0B", "0o", "0O"))
        D = "0123456789"; sep = "_" if self.p(.4) else None; k = self.r.randrange(8)
        if k < 3:
            p, b = self.pick([("0x", HEX), ("0X", HEX), ("0b", "01"), ("0B", "01"), ("0o", "01234567"), ("0O", "01234567")])
            segs = [(p, "number_decor")] + digit_segs(self.digits(b, sep=sep))
            if self.p(.3): segs.append(("n", "number_decor"))
        elif k == 3: segs = [("0" + self.digits("01234567", self.r.randint(1, 6)), "number")] if self.p(.5) else [("0", "number")]
        elif k == 4:
            segs = digit_segs(self.pick("123456789") + (self.digits(D, sep=sep) if self.p(.8) else ""))
            if self.p(.4): segs.append(("n", "number_decor"))
        else:
            a = self.pick(["0", self.pick("123456789") + (("_" if sep and self.p(.3) else "") + self.digits(D, sep=sep) if self.p(.7) else "")]) if self.p(.8) else ""
            b = self.digits(D, sep=sep) if self.p(.8) or not a else ""
            e = self.p(.4)
            segs = digit_segs(a)
            if b or not e or self.p(.3): segs += [(".", "number_delim")] + digit_segs(b)
            if e: segs += [(self.pick("eE") + self.pick(["", "+", "-"]), "number_delim")] + digit_segs(self.digits(D, self.r.randint(1, 4), sep))
        return ("number", segs)
    def bad_number(self):
        """Misplaced separators, no digits, a fraction or exponent with n; what is no digit of the base does not belong to the number."""
        d = lambda: self.digits("123456789", self.r.randint(1, 4)); k = self.r.randrange(10)
        if k < 2: t = self.pick(["0b", "0B", "0o", "0O", "0x", "0X"])
        elif k == 2: t = d() + "_"
        elif k == 3: t = d() + "__" + d()
        elif k == 4: t = d() + self.pick(["_.", "._", "_._"]) + d()
        elif k == 5: t = d() + self.pick(["e", "E", "e+", "E-", "e_", "_e", ".e", "." + d() + "E+"]) ; t += d() if "_" in t else ""
        elif k == 6: t = d() + self.pick(["." + d(), "." + d() + "e5", "e5", "_", ".", "_.", "__" + d()]) + "n"
        elif k == 9 and self.p(.3): t = self.pick(["0x", "0b", "0o", "0X", "0B", "0O", "0x_"]) + "n"
        elif k == 7: p, b = self.pick([("0x", HEX), ("0b", "01"), ("0o", "01234567")]); t = p + self.pick(["_" + self.digits(b), self.digits(b) + "_", self.digits(b) + "__" + self.digits(b)])
        elif k == 8:
            p, b, o = self.pick([("0x", HEX, "gGhxz"), ("0X", HEX, "gGhxz"), ("0b", "01", "2"), ("0B", "01", "29"), ("0o", "01234567", "89"), ("0O", "01234567", "8")])
            if b != HEX: return ("number", [(p, "error"), (self.pick(o), "number")])
            if self.p(.5): return ("number", [(p, "error"), (self.pick(o), "name")])
            return ("number", [(p, "number_decor"), (self.digits(b), "number"), (self.pick(o), "name")])
        else: t = self.pick(["0_", "0__0", "00_", "0e", "0.e", "0.5n", "0e1n"])
        return ("number", [(t, "error")])
    def escape(self):
        k = self.r.randrange(8)
        if k < 3: return "\\" + self.pick("'\"\\bfnrtv`$/aqé中😀"), ""
        if k == 3: return "\\0", "0123456789"
        if k == 4: return "\\x" + self.digits(HEX, 2), ""
        if k == 5: return "\\u" + self.digits(HEX, 4), ""
        return "\\u{" + self.digits(HEX, self.r.randint(1, 6)) + "}", ""
    def body(self, keep, cont, n=None):
        """Segments of text, escapes and line continuations; keep(text) filters the text."""
        segs = []
        for _ in range((self.r.randint(0, 4) if self.p(.93) else self.r.randint(4, 30)) if n is None else n):
            x = self.r.random(); t = keep(self.text())
            if x < .35:
                e, bad = self.escape(); segs.append((e, "string_escape"))
                while t and t[0] in bad: t = t[1:]
                if bad and not t: t = "~"
            elif x < .42: segs += cont(self.pick(["\n", "\n", "\r\n", "\u2028", "\u2029", "\r"])); continue
            if t: segs.append((t, "string"))
        return segs
    def string(self, escapes=True):
        q = self.pick("'\""); self.expr = False
        keep = lambda t: "".join(c for c in t if c not in "\\\n\r" and c != q)
        if escapes and self.p(.08):
            # Annex B: legacy octal escapes, and those of 8 and 9
            segs = [(q, "string_delim")]
            for _ in range(self.r.randint(1, 4)):
                k = self.r.randrange(4)
                e = self.pick("0123") + "".join(self.pick("01234567") for _ in range(self.r.randint(0, 2))) if k < 2 else self.pick("4567") + (self.pick("01234567") if self.p(.5) else "") if k == 2 else self.pick("89")
                segs.append(("\\" + e, "string_escape"))
                full = len(e) == 3 or e[0] in "4567" and len(e) == 2 or e[0] in "89"
                t = keep(self.text())
                if self.p(.3): t = self.pick("0123456789") + t
                while t and not full and t[0] in "01234567" + ("89" if e == "0" else ""): t = t[1:]
                if t: segs.append((t, "string"))
                elif not full: segs.append(("~", "string"))
            return ("string", segs + [(q, "string_delim")])
        any2 = ("string_escape", "string")
        cont = lambda nl: [("\\", "string_escape")] + [(c, any2) for c in nl]
        return ("string", [(q, "string_delim")] + (self.body(keep, cont) if escapes else [(keep(self.text()), "string")]) + [(q, "string_delim")])
    def template(self, simple=False):
        keep = lambda t: without(t.replace("`", "").replace("\\", ""), "${") if not simple else "".join(c for c in t if c.isalnum())
        cont = lambda nl: [("\\", "string_escape")] + [(c, ("string_escape", "string")) for c in nl]
        segs = [("`", "string_delim")]
        if self.depth < 4 and self.p(.2): segs.append((self.pick(["$", "$$", "{", "}", "{}", "$}"]) if not simple else "x", "string"))
        for _ in range(self.r.randint(0, 3)):
            # texts next to each other must not form a substitution
            b = [] if simple else self.body(keep, cont, self.r.randint(0, 2))
            if simple: b = [(keep(self.text()), "string")]
            for t in b:
                if segs[-1][1] == "string" and segs[-1][0].endswith("$") and t[0].startswith("{"): segs.append((" ", "string"))
                segs.append(t)
            if self.depth < 4 and self.p(.6):
                self.depth += 1
                segs.append(("${", "string_interpolation_delim"))
                segs += self.inner(simple)
                segs.append(("}", "string_interpolation_delim"))
                self.depth -= 1
            else: segs.append(("$x" if not simple else "x", "string"))
        self.expr = False
        return ("template", segs + [("`", "string_delim")])
    def inner(self, simple=False):
        """Code inside of braces."""
        keep, self.expr, old = self.expr, True, getattr(self, "simple", False)
        self.simple = simple or old
        items = self.sequence(self.r.choice([0, 1, 1, 2, 3, 6]), {"expr": True})
        self.simple = old; self.expr = keep
        out = []
        if self.p(.3): out.append((self.spaces(), None))
        for it in items: out += it[1]
        if items and items[-1][0] == "operator" and self.text_of(items[-1])[-1:] in "/": out.append((" ", None))
        if self.p(.3): out.append((self.spaces(), None))
        return out
    def regex(self):
        segs = ""
        for _ in range(self.r.randint(1, 6)):
            k = self.r.randrange(5)
            t = "".join(c for c in self.text() if c not in "/\\[]*" + NL)
            if k == 0: segs += "\\" + self.pick("/\\[]dwsbnu*+.$^")
            elif k == 1:
                c = "".join(c for c in self.text() if c not in "\\]" + NL).replace("[", "")
                segs += "[" + self.pick(["", "^", "/", "//", "\\]", "\\\\"]) + c + self.pick(["", "/", "[", "'"]) + "]"
            else: segs += t
        if not segs or segs[0] in "*/": segs = "x" + segs
        f = self.pick(["", "", "g", "gi", "u", "dgimsuvy"])
        self.expr = False
        return ("regular expression", [("/", "string_delim"), (segs, "string"), ("/", "string_delim"), (f, "string_decor")])
    def op(self):
        if self.p(.12):
            run, parts = self.run(self.ops)
            self.expr = parts[-1] not in ("++", "--")
            return ("operator", [(p, OPTYPE[p]) for p in parts])
        if self.expr is False and self.p(.25): o = self.pick(["/", "/", "/=", "<"])
        else: o = self.pick(self.ops)
        self.expr = o not in ("++", "--")
        return ("operator", [(o, OPTYPE[o])])
    def group(self):
        """A pair of brackets around a sequence."""
        o, c = self.pick(["()", "[]", "{}"])
        if self.depth >= 4: self.expr = False; return ("brackets", [(o, OPTYPE[o]), (c, OPTYPE[c])])
        self.depth += 1
        segs = [(o, OPTYPE[o])] + self.inner() + [(c, OPTYPE[c])]
        self.depth -= 1; self.expr = False
        return ("brackets", segs)
    # JSX
    def tagspace(self):
        k = self.r.random()
        if k < .7: return [(self.pick(["", "", " ", "\n ", "\t"]), None)]
        return [(" ", None)] + self.block_comment()[1] + [(" ", None)]
    def jsx_name(self, extra): return self.word(start=ASCII_START + "$", cont=ASCII_CONT + extra, uni=False, avoid=())
    def attrs(self):
        segs = []
        for _ in range(self.r.choice([0, 0, 1, 2, 5])):
            segs += [(self.pick([" ", "\n  "]), None)]
            k = self.r.randrange(4)
            if k == 0 and self.depth < 4: segs += self.braced(True)
            else:
                segs += [(self.jsx_name("-:"), "markup_tag")]
                if k == 1: continue
                segs += self.tagspace() if self.p(.2) else []
                segs += [("=", "symbol_punc")]
                segs += self.tagspace() if self.p(.2) else []
                if k == 2 or self.depth >= 4: segs += self.string(escapes=False)[1]
                else: segs += self.braced()
        return segs
    def braced(self, spread=False):
        self.depth += 1
        keep = self.expr
        segs = [("{", "symbol_brace")] + ([("...", "symbol_op"), ("props", "name"), (" ", None)] if spread else self.inner(simple=True)) + [("}", "symbol_brace")]
        self.depth -= 1; self.expr = keep
        return segs
    def jsx(self, top=True):
        self.depth += 1
        segs = [("<", "symbol_punc")]
        frag = self.p(.15); name = "" if frag else self.jsx_name("-.:")
        segs += [(name, "markup_tag")]
        if not frag: segs += self.attrs() + self.tagspace()
        if not frag and self.p(.3): segs += [("/", "symbol_punc"), (">", "symbol_punc")]
        else:
            segs += [(">", "symbol_punc")]
            for _ in range(self.r.choice([0, 1, 2, 4])):
                k = self.r.randrange(4)
                if k == 0: segs += [(self.pick(["&amp;", "&lt;", "&#65;", "&#x1F600;"]), "string_escape")]
                elif k == 1 and self.depth < 5: segs += self.jsx(False)
                elif k == 2 and self.depth < 5: segs += self.braced()
                else: segs += [("".join(c for c in self.text() if c not in "&{}<>"), None)]
            segs += [("<", "symbol_punc"), ("/", "symbol_punc"), (name, "markup_tag"), (self.pick(["", "", " "]), None), (">", "symbol_punc")]
        self.depth -= 1; self.expr = None   # another element can follow at once
        return ("jsx", segs) if top else segs
    def line_comment(self):
        t = "".join(c for c in self.text() if c not in NL)
        if self.p(.2): t = self.pick(["/*", "\"", "'", "*/", "/", "`${"]) + t
        if self.p(.1): t += "\\"
        return ("line comment", [("//", "comment_delim"), (t, "comment"), (self.pick(["\n", "\n", "\n", "\r\n", "\r", "\u2028", "\u2029"]), None)])
    def block_comment(self):
        t = without(self.pick(["", "", "*", "/", "//", "\n", "\"", "`"]) + self.text() + self.pick(["", "", "*", "**", "/", "\n", "//", "'"]), "*/")
        return ("block comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def comment(self): return self.block_comment() if self.p(.6) else self.line_comment()
    def element(self):
        simple = getattr(self, "simple", False)
        x = self.r.random()
        if self.expr is True and x < .12 and not simple: return self.regex()
        if self.expr is True and x < .16 and not self.ts and self.depth < 3 and not simple: return self.jsx()
        if x < .34: return self.ident()
        if x < .46: return self.keyword()
        if x < .64: return self.op()
        if x < .72: return self.number()
        if x < .79: return self.string()
        if x < .86: return self.template(simple)
        if x < .94: return self.group()
        if x < .96: return self.private()
        return self.comment()
    def sequence(self, n, st=None):
        return super().sequence(n)
    def sep(self, a, b):
        ka, kb = a[0], b[0]; ta, tb = self.text_of(a), self.text_of(b)
        comments = ("line comment", "block comment")
        if "space" in (ka, kb) or ka in comments or ka == "hashbang": return ""
        if kb in comments: return " " if ka == "operator" and ta.endswith("/") else ""
        wordy = ("identifier", "keyword", "private name", "number", "regular expression")
        if ka == "operator":
            if kb == "operator": return "" if self.joins(ta, tb) else " "
            if kb == "number": return " " if ta.endswith(".") else ""
            if kb in ("regular expression", "jsx"): return " " if ta[-1] in "/<" else ""
            return ""
        if kb == "operator": return " " if ka == "number" and (tb[0] == "." or tb[0] in "+-" and ta[-1] in "eE") or ka == "jsx" else ""
        if kb == "jsx": return " " if ta[-1:] == "<" else ""
        if ka in wordy and kb in wordy: return " "
        if ka == "number" and kb in wordy: return " "
        if kb == "number" and tb[0] == "." and ka in wordy: return " "
        return ""
    def rejoin(self, items):
        # removing elements must not change where expressions can start
        out, expr = [], True
        for it in super().rejoin(items):
            k, t = it[0], self.text_of(it)
            if k == "regular expression" and expr is not True or k == "jsx" and expr is not True or k == "operator" and t in ("/", "/=", "<") and expr is not False: return None
            if k == "hashbang" and out: return None
            if k in ("space", "line comment", "block comment", "hashbang"): pass
            elif k == "keyword": expr = None if t == "of" else t in EXPR
            elif k == "jsx": expr = None
            elif k == "operator": expr = it[1][-1][0] not in ("++", "--")
            else: expr = False
            out.append(it)
        return out
    def doc(self):
        self.setup()
        items = self.sequence(self.size())
        if self.p(.1): items = [("hashbang", [("#!", "comment_delim"), ("".join(c for c in self.text() if c not in NL), "comment"), ("\n", None)])] + items
        d = lex.Doc(items)
        d.lang = corpus.LANG_ID["ts" if self.ts else "js"]
        return d

def c31(chk):
    lex.check(chk, "js", 0, Js, 60000 if chk.thorough else 24000)
    chk.cov["rule"] = lex.RULE
