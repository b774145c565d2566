"""C39: JSON, JSONC and YAML."""
import re
import corpus, lex
from gen import *
from lex import ANY

D = "0123456789"
PROP = "markup_attr"
class Json(Gen):
    """JSON with comments where the language has them, trailing commas, and some malformed tokens."""
    exact = frozenset(("number", "word", "malformed number", "bad word", "block comment", "brace", "bracket", "broken string", "colon", "comma", "line comment"))
    def start(self):
        self.jsonc = self.p(.4); self.strict = self.p(.5)
        self.comments = self.jsonc or not self.strict
    def ws(self):
        if self.p(.45): return []
        out = []
        for _ in range(1 if self.p(.8) else self.r.randint(2, 4)):
            if self.comments and self.p(.18): out.append(self.comment())
            else: out.append(("space", [(self.pick([" ", "\n", "  ", "\t", "\r\n", "\r", "\n\n  "]), None)]))
        return out
    def comment(self):
        if self.p(.5):
            # a line comment includes carriage returns only as part of the line's end
            return ("line comment", [("//", "comment_delim"), (without(self.text() + self.pick(["", "*/", "/*", "\"", "//"]), "\n", "\r", "\u2028", "\u2029"), "comment"), ("\n", None)])
        t = without(self.text() + self.pick(["", "\n", "*", "/", "//", "\""]), "*/")
        while ("/*" + t + "*/").find("*/", 2) != len(t) + 2: t = t[:-1]
        return ("block comment", [("/*", "comment_delim"), (t, "comment"), ("*/", "comment_delim")])
    def escape(self):
        if self.p(.4): return [("\\u" + self.digits(HEX, 4), "string_escape")]
        if self.p(.08):
            # the erroneous part takes up at most four letters and digits
            h = "".join(self.pick(HEX + "GgzZ_"[:4]) for _ in range(self.r.randint(0, 4)))
            if len(h) == 4 and all(c in HEX for c in h): h = h[:3] + "g"
            return [("\\u" + h, "error"), (self.pick([" ", "{", "中", "}", "-"]) if len(h) < 4 else self.pick(["", "0", "g"]), "string")]
        if self.p(.06): return [("\\", "error"), (self.pick(["x41", "a", "'", "0", "v", "U0041", " ", "é", "N"]), "string")]
        return [("\\" + self.pick("\"\\/bfnrt"), "string_escape")]
    def string(self, prop=False):
        t = PROP if prop else "string"; q = PROP if prop else "string_delim"
        ss = [('"', q)]
        for _ in range(self.r.randint(0, 4) if self.p(.95) else self.r.randint(4, 20)):
            x = self.r.random()
            if x < .35: ss += [(a, t if b == "string" else b) for a, b in self.escape()]
            elif x < .37: ss.append((self.pick(["\x00", "\x01", "\x1f", "\t", "\x0c", "\x1b"]), "error"))
            else: ss.append((without(self.text() + self.pick(["", "//", "/*", "\x7f"]), "\\", '"'), t))
        if self.p(.03): ss.append(("\\u" + "".join(self.pick(HEX + "gz") for _ in range(self.r.randint(0, 3))), "error"))
        return ("property" if prop else "string", ss + [('"', q)])
    def number(self):
        s = self.pick(["", "", "-"]) + (self.pick(["0", "0", "1", "9"]) if self.p(.4) else self.pick(D[1:]) + (self.digits(D) if self.p(.9) else ""))
        if self.p(.4): s += "." + self.digits(D)
        if self.p(.3): s += self.pick("eE") + self.pick(["", "+", "-"]) + self.digits(D, self.r.randint(1, 4))
        return ("number", [(s, "number")])
    def value(self, depth):
        x = self.r.random()
        if depth > 0 and x < .4: return self.object(depth) if self.p(.55) else self.array(depth)
        if x < .6: return [self.string()]
        if x < .75: return [self.number()]
        if x < .95: w = self.pick(["true", "false", "null"]); return [("word", [(w, "null" if w == "null" else "bool")])]
        if x < .98: return [("malformed number", [(self.pick(["01", "-", "1.", "-.5", "1e", "2E+", "00", "-01.5", "1.e5", "0123e-", "-e"]), "error")])]
        return [("bad word", [(self.pick(["True", "nul", "nulls", "undefined", "NaN", "Infinity", "x", "truefalse", "true1", "nullnull"]), "error")])]
    def many(self): return 0 if self.p(.12) else self.r.randint(1, 4) if self.p(.93) else self.r.randint(5, 40)
    def object(self, depth):
        out = [("brace", [("{", "symbol_brace")])]; n = self.many()
        for i in range(n):
            out += self.ws() + [self.string(True)] + self.ws() + [("colon", [(":", "symbol_punc")])] + self.ws() + self.value(depth - 1) + self.ws()
            if i + 1 < n or self.p(.08): out.append(("comma", [(",", "symbol_punc")]))
        return out + self.ws() + [("brace", [("}", "symbol_brace")])]
    def array(self, depth):
        out = [("bracket", [("[", "symbol_square")])]; n = self.many()
        for i in range(n):
            out += self.ws() + self.value(depth - 1) + self.ws()
            if i + 1 < n or self.p(.08): out.append(("comma", [(",", "symbol_punc")]))
        return out + self.ws() + [("bracket", [("]", "symbol_square")])]
    def doc(self):
        self.start()
        d = self.ws() + self.value(self.pick([0, 1, 2, 3, 3, 4, 6])) + self.ws()
        x = self.r.random()
        if x < .05: d = self.ws() + [("bracket", [("[", "symbol_square")]), ("unterminated", [('"', "string_delim"), (without(self.text(), "\\", '"', "\n"), "string")])]
        elif x < .1: d = self.ws() + [("brace", [("{", "symbol_brace")]), ("broken string", [('"a"', PROP), (":", "symbol_punc"), ('"', "string_delim"), ("b", "string"), (self.pick("\n\r"), None)]), ("brace", [("}", "symbol_brace")])]
        elif x < .13 and not self.comments: d = [("bracket", [("[", "symbol_square")]), ("no comment", [("/", "error"), (self.pick("/*"), "error")]), ("bracket", [("]", "symbol_square")])]
        d = lex.Doc(d)
        d.lang = corpus.LANG_ID["jsonc" if self.jsonc else "json"]; d.flags = (2 if self.strict else 0) | (1 if self.p(.25) else 0)
        return d
    def rejoin(self, items): return None


FIRST = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_/$.()+=^;<\\~" + "éßñøЖ中😀\u00a0"
REST = FIRST + "0123456789" + "-?:,[]{}#&*!|>'\"%@`" + "   "
NULLS = ["null", "Null", "NULL", "~"]
BOOLS = ["true", "True", "TRUE", "false", "False", "FALSE", "yes", "Yes", "YES", "no", "No", "NO", "on", "On", "ON", "off", "Off", "OFF"]
NUM = re.compile(r"[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?|0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|[-+]?\.(inf|Inf|INF)|\.(nan|NaN|NAN)|\d+:\d+(:\d*)?")
# what is so close to a number that no reading is required
NEARLY = re.compile(r"[-+]?\.?[0-9]\S*|[-+]?\.(inf|nan).*", re.I)
class Yaml(Gen):
    exact = frozenset(("number", "word", "alias", "brace", "bracket", "colon", "comma", "comment", "comment line", "dash", "flow key", "key", "marker", "quoted flow key", "quoted key"))
    def start(self): self.nl = self.pick(["\n", "\n", "\n", "\r\n"])
    def inline_ws(self, must=True): return self.pick([" ", " ", " ", "  ", "\t", "   "]) if must or self.p(.5) else ""
    def comment_text(self): return [("#", "comment_delim"), (without(self.text() + self.pick(["", ": x", "# y", "'", "- z", "|", "{"]), "\n", "\r"), "comment")]
    def eol(self):
        """The end of a line: perhaps spaces, a comment, and lines of comments."""
        out = []
        x = self.r.random()
        if x < .1: out.append(("comment", [(self.inline_ws(), None)] + self.comment_text()))
        elif x < .15: out.append(("space", [(self.pick([" ", "  ", "\t"]), None)]))
        out.append(("line break", [(self.nl, None)]))
        while self.p(.08):
            if self.p(.5): out.append(("line break", [(self.nl, None)]))
            else: out.append(("comment line", [(" " * self.r.randint(0, 6), None)] + self.comment_text() + [(self.nl, None)]))
        return out
    # ---- scalars
    def plain_text(self, flow, key=False):
        while True:
            n = self.r.randint(0, 8) if self.p(.9) else self.r.randint(9, 60)
            s = self.pick(FIRST) + "".join(self.pick(REST) if self.p(.5) else self.pick(FIRST) for _ in range(n))
            if self.p(.15): s = self.pick(["http://a.b:80/c?d=e#f", "it's", "a#b", "C:\\x", "no-op", "yes sir", "nullable", "true story", "--flag", "-x", "?y", ":z", "12 monkeys", "1.2.3", "2024-01-01", "0xZZ", "1e", "v1.0", "~/x", "a, b", "say \"hi\"", "on/off", "a - b", "k=v", "100%", "x: y"])
            if self.p(.1): s = self.pick(BOOLS + NULLS) + self.pick([" ", "-", "_", "", "s", "."]) + s
            s = re.sub(r":(?=[ \t])|(?<=[ \t])#|:$", "", s).strip(" ")
            if flow: s = re.sub(r"[,\[\]{}]", "", s); s = re.sub(r":(?=[ \t])|(?<=[ \t])#|[: ]+$", "", s).strip(" ")
            if not s or s[0] in ",[]{}#&*!|>'\"%@`" or s[0] in "-?:" and (len(s) < 2 or s[1] in " " or flow and s[1] == ":"): continue
            if ": " in s or " #" in s or s.endswith(":") or s in BOOLS or s in NULLS or NUM.fullmatch(s): continue
            if s.startswith("---") or s.startswith("..."): continue
            return s
    def num_text(self):
        k = self.r.randrange(9)
        if k < 3: return self.pick(["", "", "-", "+"]) + self.digits(D)
        if k == 3: return self.pick(["", "-", "+"]) + self.digits(D) + "." + self.digits(D)
        if k == 4: return self.pick(["", "-"]) + self.digits(D) + self.pick(["", "." + self.digits(D)]) + self.pick("eE") + self.pick(["", "+", "-"]) + self.digits(D, 2)
        if k == 5: return self.pick(["0x", "0X"]) + self.digits(HEX)
        if k == 6: return self.pick(["0o", "0O"]) + self.digits("01234567") if self.p(.6) else self.pick(["0b", "0B"]) + self.digits("01")
        if k == 7: return self.pick([".inf", "-.inf", "+.Inf", ".INF", ".nan", ".NaN", ".NAN"])
        return "%d:%02d" % (self.r.randint(0, 99), self.r.randint(0, 59)) + self.pick(["", ":%02d" % self.r.randint(0, 59)])
    def special(self):
        """A scalar which is not a string."""
        x = self.r.random()
        if x < .4: return ("number", [(self.num_text(), "number")])
        if x < .8: return ("word", [(self.pick(BOOLS), "bool")])
        return ("word", [(self.pick(NULLS), "null")])
    def escape(self):
        x = self.r.random()
        if x < .6: return [("\\" + self.pick("0abefnrtv\"/\\_NLP \t"), "string_escape")]
        if x < .7: return [("\\x" + self.digits(HEX, 2), "string_escape")]
        if x < .8: return [("\\u" + self.digits(HEX, 4), "string_escape")]
        if x < .9: return [("\\U" + self.digits(HEX, 8), "string_escape")]
        return [("\\", "error"), (self.pick(["c", "z", "'", "-", "中", "#"]), "string")]
    def double(self, cont=None):
        ss = [('"', "string_delim")]
        for _ in range(self.r.randint(0, 4)):
            x = self.r.random()
            if x < .35: ss += self.escape()
            elif x < .42 and cont is not None: ss += [(self.pick(["", "\\"]), "string_escape"), (self.nl + " " * cont, (None, "string_escape") if self.p(0) else ANY)]
            else:
                t = without(self.text() + self.pick(["", ": ", " # ", "''"]), "\\", '"', "\n", "\r")
                if t: ss.append((t.lstrip(" ") or "_" if ss[-1][1] in (ANY, None) else t, "string"))
        return ss + [('"', "string_delim")]
    def single(self, cont=None):
        ss = [("'", "string_delim")]
        for _ in range(self.r.randint(0, 4)):
            x = self.r.random()
            if x < .2: ss.append(("''", "string"))
            elif x < .3 and cont is not None: ss.append((self.nl + " " * cont, None))
            else:
                t = without(self.text() + self.pick(["", ": ", " # ", "\\"]), "'", "\n", "\r")
                if t: ss.append((t.lstrip(" ") or "_" if ss[-1][1] is None else t, "string"))
        return ss + [("'", "string_delim")]
    def name(self): return self.word(cont=ASCII_CONT + "-", uni=self.p(.1), avoid=[x.lower() for x in BOOLS + NULLS])
    def tag(self):
        k = self.r.randrange(5)
        A, B = "name_attr_delim", "name_attr"
        if k == 0: return [("!!", A), (self.pick(["str", "int", "map", "seq", self.name()]), B)]
        if k == 1: return [("!", A), (self.name(), B)]
        if k == 2: return [("!", A)]
        if k == 3: return [("!<", A), (self.pick(["tag:yaml.org,2002:str", "!local", "x[y]"]), B), (">", A)]
        return [("!", A), (self.word(cont="abcxyz0129-", start="abcz", uni=False), B), ("!", A), (self.name(), B)]
    def anchor(self): return [("&", "name_attr_delim"), (self.name(), "name")]
    def properties(self):
        if self.p(.88): return []
        out = [self.tag(), self.anchor()]
        if self.p(.3): out.reverse()
        if self.p(.7): out = out[:1]
        return [("property", p + [(self.inline_ws(), None)]) for p in out]
    def scalar(self, flow=False, cont=None, props=True):
        """A scalar within a line."""
        out = self.properties() if props else []
        x = self.r.random()
        if x < .35: return out + [("plain", [(self.plain_text(flow), "string")])]
        if x < .65: return out + [self.special()]
        if x < .8: return out + [("double quoted", self.double(cont))]
        if x < .93: return out + [("single quoted", self.single(cont))]
        return [("alias", [("*", "name_attr_delim"), (self.name(), "name")])]
    def key(self):
        """A key of a block mapping."""
        x = self.r.random()
        if x < .75: return ("key", [(self.plain_text(False, True) if self.p(.6) else self.name(), PROP)])
        if x < .85: s = self.special()[1][0][0]; return ("key", [(s, PROP)])
        if x < .93: return ("quoted key", [('"' + "".join(t for t, _ in self.double()[1:-1]) + '"', PROP)])
        return ("quoted key", [("'" + "".join(t for t, _ in self.single()[1:-1]) + "'", PROP)])
    # ---- flow collections
    def fws(self, after=False):
        """after: after a value, whose string may include the whitespace."""
        x = self.r.random()
        if x < .5: return []
        if x < .85: return [("space", [(self.pick([" ", "  ", "\t"]), ANY if after else None)])]
        return [("flow line break", ([(" ", None)] + self.comment_text() if self.p(.3) else []) + [(self.nl + " " * (self.indent + 1 + self.r.randint(0, 3)), None)])]
    def flow(self, depth):
        out = self.properties()
        n = 0 if self.p(.12) else self.r.randint(1, 4)
        if self.p(.5):
            out.append(("bracket", [("[", "symbol_square")]))
            for i in range(n):
                out += self.fws() + (self.flow(depth - 1) if depth > 0 and self.p(.25) else self.scalar(True, self.indent + 1)) + self.fws(True)
                if i + 1 < n or self.p(.1): out.append(("comma", [(",", "symbol_punc")])); out += self.fws()
            return out + [("bracket", [("]", "symbol_square")])]
        out.append(("brace", [("{", "symbol_brace")]))
        for i in range(n):
            out += self.fws()
            x = self.r.random()
            if x < .6: out.append(("flow key", [(self.plain_text(True, True) if self.p(.5) else self.name(), PROP)])) ; tight = False
            elif x < .75: s = self.special(); out.append(("flow key", [(s[1][0][0], (PROP, s[1][0][1]))])); tight = False
            elif x < .9: out.append(("quoted flow key", [('"' + "".join(t for t, _ in self.double()[1:-1]) + '"', PROP)])); tight = self.p(.3)
            else: out.append(("quoted flow key", [("'" + "".join(t for t, _ in self.single()[1:-1]) + "'", PROP)])); tight = self.p(.3)
            if self.p(.93):
                out.append(("colon", [("", None) if tight or self.p(.9) else (" ", None), (":", "symbol_punc")]))
                if self.p(.93):
                    if not tight: out.append(("space", [(self.inline_ws(), None)]))
                    out += self.fws() + (self.flow(depth - 1) if depth > 0 and self.p(.25) else self.scalar(True, self.indent + 1))
            out += self.fws(True)
            if i + 1 < n or self.p(.1): out.append(("comma", [(",", "symbol_punc")])); out += self.fws()
        return out + [("brace", [("}", "symbol_brace")])]
    # ---- block scalars
    def block_scalar(self, n):
        """n: the indentation of the parent."""
        ind = n + self.r.randint(1, 4) if n >= 0 else self.r.randint(0 if self.p(.3) else 1, 4)
        if ind == 0: ind = 1
        explicit = self.p(.12) and ind - max(n, 0) <= 9
        head = [self.pick("|>")]
        ind_s = [(str(ind - max(n, 0)), "number_decor")] if explicit else []
        chomp = [(self.pick("+-"), "number_decor")] if self.p(.35) else []
        hs = chomp + ind_s if self.p(.6) else ind_s + chomp
        ss = [(head[0], "string_delim")] + hs
        if self.p(.12): ss += [(self.inline_ws(), None)] + self.comment_text()
        elif self.p(.05): ss.append((" ", None))
        ss.append((self.nl, None))
        first = True
        for _ in range(self.r.randint(1, 5) if self.p(.95) else 0):
            while self.p(.12): ss.append((self.nl, None))
            t = without(self.text() + self.pick(["", "# no", "k: v", "- i", "'", "...", "{"]), "\n", "\r")
            t = t.strip(" \t") if first and not explicit else t.rstrip(" \t")
            if not t: t = "x"
            lead = " " * self.r.randint(1, 3) if not first and self.p(.2) or first and explicit and self.p(.5) else ""
            # with an explicit indentation, it is not judged whether leading spaces belong to the text
            if explicit: t = t.strip(" ")or "x"
            ss += [(" " * ind, None), (lead, ANY if explicit else "string"), (t, "string"), (self.nl, None)]; first = False
        while self.p(.1): ss.append((self.nl, None))
        return [("block scalar", ss)]
    # ---- block collections
    def value(self, n, depth, after_dash=False):
        """A value after 'key:' or '-', with the end of its line. n: the indentation of the collection."""
        x = self.r.random()
        self.indent = n
        sp = [("space", [(self.inline_ws() if not after_dash else self.pick([" ", " ", " ", "  ", "   "]), None)])]
        if depth <= 0 or x < .5:
            if self.p(.08): return self.eol()                 # empty
            return sp + self.scalar(False, n + 1) + self.eol()
        if x < .62: return sp + self.flow(self.r.randint(0, 3)) + self.eol()
        if x < .72: return sp + self.properties() + self.block_scalar(n)
        props = self.properties() if not after_dash else []
        if props: props[-1] = (props[-1][0], props[-1][1][:-1])
        return (sp + props if props else []) + self.eol() + self.collection(n + self.r.randint(1, 4), depth - 1)
    def entry_mapping(self, n, depth):
        out = [self.key(), ("colon", [(self.pick([""] * 9 + [" "]), None), (":", "symbol_punc")])]
        if depth > 0 and self.p(.1):
            # a sequence may have the indentation of its key
            self.indent = n
            return out + self.eol() + self.sequence(n, depth - 1)
        return out + self.value(n, depth)
    def mapping(self, n, depth):
        out = []
        for _ in range(self.r.randint(1, 4)):
            if n: out.append(("indentation", [(" " * n, None)]))
            out += self.entry_mapping(n, depth)
        return out
    def sequence(self, n, depth):
        out = []
        for _ in range(self.r.randint(1, 4)):
            if n: out.append(("indentation", [(" " * n, None)]))
            out.append(("dash", [("-", "symbol_punc")]))
            x = self.r.random()
            if depth > 0 and x < .2:
                # a compact mapping: its further keys are indented like its first
                k = self.r.randint(1, 3)
                out.append(("space", [(" " * k, None)]))
                m = n + 1 + k
                out += self.entry_mapping(m, depth - 1)
                for _ in range(self.r.randint(0, 2)):
                    out.append(("indentation", [(" " * m, None)]))
                    out += self.entry_mapping(m, depth - 1)
            elif depth > 0 and x < .27:
                # a compact sequence
                out += [("space", [(" ", None)]), ("dash", [("-", "symbol_punc"), (" ", None)])] + self.scalar(False, None) + self.eol()
                for _ in range(self.r.randint(0, 2)):
                    out += [("indentation", [(" " * (n + 2), None)]), ("dash", [("-", "symbol_punc"), (" ", None)])] + self.scalar(False, None) + self.eol()
            else: out += self.value(n, depth, True)
        return out
    def collection(self, n, depth): return self.mapping(n, depth) if self.p(.6) else self.sequence(n, depth)
    def document(self, explicit, directives):
        out = []
        if explicit and directives and self.p(.25):
            for _ in range(self.r.randint(1, 2)):
                out.append(("directive", [("%", "name_macro_delim"), (self.pick(["YAML", "TAG", "FOO-1"]), "name_macro"), (" ", None), (self.pick(["1.2", "!e!", "x"]), "string"), (self.pick([" ", "\t"]), None), (self.pick(["tag:example.com,2000:", "y", "é#z"]), "string"), (self.nl, None)]))
        if explicit: out += [("marker", [("---", "symbol_punc")])]
        x = self.r.random()
        self.indent = -1
        if x < .7: return out + (self.eol() if explicit else []) + self.collection(self.pick([0, 0, 0, 2]), self.r.randint(0, 4))
        if not explicit: return self.collection(0, self.r.randint(0, 4))
        sp = [("space", [(self.pick([" ", "  "]), None)])]
        if x < .8: return out + sp + self.scalar(False, 1) + self.eol()
        if x < .88: return out + sp + self.flow(self.r.randint(0, 3)) + self.eol()
        if x < .94: return out + sp + self.block_scalar(-1)
        return out + self.eol() + self.flow(2) + self.eol()
    def doc(self):
        self.start()
        d = []
        if self.p(.2): d += [("comment line", self.comment_text() + [(self.nl, None)])]
        n = 1 if self.p(.7) else self.r.randint(2, 4)
        for i in range(n):
            d += self.document(i > 0 or self.p(.4), i == 0 or ended)
            ended = self.p(.2)
            if ended:
                d += [("marker", [("...", "symbol_punc")])] + self.eol()
        return lex.Doc(d)
    def rejoin(self, items): return None

def c39(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "json", corpus.LANG_ID["json"], Json, 80000 if chk.thorough else 16000)
    lex.check(chk, "yaml", corpus.LANG_ID["yaml"], Yaml, 60000 if chk.thorough else 12000)
