"""C38: HTML and XML."""
import re
import corpus, lex
from gen import *
from lex import ANY

T = "abc xyz019 _.,:;!?+-*/=>()[]{}|^~%@#$`'\"\\\n\t" + "éß中😀\u0301\u200d\u00a0\u2028\U0010ffff"
D = "0123456789"
REF = re.compile(r"&+(?=(?:#[0-9]+|#[xX][0-9A-Fa-f]+|[A-Za-z0-9]+);)")
def merge(ss):
    """Joins neighbouring segments of one type."""
    out = []
    for t, ty in ss:
        if t and out and out[-1][1] == ty and ty != "string_escape": out[-1] = (out[-1][0] + t, ty)
        elif t: out.append((t, ty))
    # text must not form a reference by accident
    return [(t if ty == "string_escape" else REF.sub("", t), ty) for t, ty in out]

class Markup(Gen):
    exact = frozenset(("tag", "end tag", "reference", "comment", "processing instruction", "attribute declaration", "element declaration"))
    def ws(self, must=False):
        if not must and self.p(.6): return ""
        return "".join(self.pick(self.WS) for _ in range(self.r.randint(1, 3)))
    def rejoin(self, items): return items

class Html(Markup):
    exact = Markup.exact | {"cdata", "doctype"}
    WS = " \t\n\r\f   "
    TAGS = ["a", "div", "p", "h1", "br", "img", "my-element", "B", "svg", "math", "td", "option", "scripts", "styl", "titles", "textareas"]
    def name(self):
        if self.p(.6): return self.pick(self.TAGS)
        s = self.word(start=ASCII_START[:-1], cont=ASCII_CONT + "-._", uni=False)
        if self.p(.1): s += self.pick(LETTERS.replace("ª", "") + "·\u203f\u0300")
        return s if s.casefold() not in ("script", "style", "title", "textarea") else "b"
    def reference(self):
        k = self.r.randrange(3)
        s = self.word(start=ASCII_START[:-1], cont=ASCII_CONT.replace("_", ""), uni=False) if k == 0 else "#" + self.digits(D) if k == 1 else "#" + self.pick("xxX") + self.digits(HEX)
        return "&" + s + ";"
    def text(self, bad="", alphabet=T, n=None):
        s = "".join(c for c in super().text(alphabet, n) if c not in bad)
        if self.p(.15): s += "".join(c for c in self.pick([" & ", "&&", "&x y", "&;", "&#;", "&#x;", "&#xg;", "&é;", "& amp;", "&#12a;"]) if c not in bad)
        return REF.sub("", s)
    def attribute(self):
        n = self.pick(["id", "class", "href", "data-x", "onclick", "@click", ":bind", "v-on:x", "[y]", "(z)", "*ngIf"]) if self.p(.6) else "".join(c for c in super().text(T + "<&") if c not in " \n\t\"'>/=\u2028\U0010ffff" ) or "x"
        ss = [(n, "markup_attr")]
        x = self.r.random()
        if x < .25: return ss, False
        ss += [(self.ws(), None), ("=", "symbol_punc"), (self.ws(), None)]
        if x < .5:
            v = []
            for _ in range(self.r.randint(1, 3)):
                if self.p(.25): v.append((self.reference(), "string_escape"))
                else: v.append((self.text(" \n\t\"'=<>`;&") or "v", "string"))
            # an ampersand must not start a reference by accident
            return ss + merge(v), True
        q = self.pick("\"'"); v = [(q, "string")]
        for _ in range(self.r.randint(0, 3)):
            if self.p(.25): v.append((self.reference(), "string_escape"))
            else: v.append((self.text(q, T + "<"), "string"))
        return ss + merge(v + [(q, "string")]), False
    def start(self, name=None):
        ss = [("<", "symbol_punc"), (name or self.name(), "markup_tag")]
        unq = False
        for _ in range(self.r.randint(0, 3) if self.p(.95) else self.r.randint(3, 12)):
            s, unq = self.attribute()
            ss += [(self.ws(True), None)] + s
        w = self.ws()
        end = self.pick([">", ">", ">", "/>"])
        if unq and not w and end == "/>": w = " "
        return ("tag", ss + [(w, None), (end, "symbol_punc")])
    def end(self, name=None):
        return ("end tag", [("</", "symbol_punc"), (name or self.name(), "markup_tag"), (self.ws(), None), (">", "symbol_punc")])
    def case(self, s): return "".join(c.upper() if self.p(.5) else c for c in s) if self.p(.3) else s
    def comment(self):
        while True:
            t = super().text(T + "<&") + self.pick(["", "", "-", "--", "->", ">", "<p>", "<!", "<!-x", "--x", "&amp;", "</script>", "]]>"]) + super().text(T, self.r.randint(0, 3))
            if t.startswith((">", "->")) or "<!--" in t or "-->" in t or "--!>" in t or t.endswith(("<!-", "<!", "<")) or (t + "-->").find("-->") != len(t) or "--!>" in t + "-->": continue
            return ("comment", [("<!--", "comment_delim"), (t, "comment"), ("-->", "comment_delim")])
    def element(self):
        x = self.r.random()
        if x < .25: return ("text", [(self.text(), None)])
        if x < .35: return ("reference", [(self.reference(), "string_escape")])
        if x < .6: return self.start()
        if x < .72: return self.end()
        if x < .8: return self.comment()
        if x < .84: return ("doctype", [("<!" + self.case("doctype") + self.pick(["", " html", " html PUBLIC \"x\" 'y'", "\n"]) + ">", "name_macro")])
        if x < .88: return ("cdata", [("<![CDATA[", "name_macro"), (without(super().text(T + "<&") + self.pick(["", "<b>", "&amp;", "]", "]]"]), "]]>"), None), ("]]>", "name_macro")])
        name = self.pick(["script", "style", "title", "textarea"])
        t, tag = self.case(name), self.case(name)
        pieces = []
        for _ in range(self.r.randint(0, 4)):
            y = self.r.random()
            if y < .3 and name in ("title", "textarea"): pieces.append((self.reference(), "string_escape"))
            elif y < .6: pieces.append((self.pick(["</", "</" + name + "x>", "</" + name + "-", "</" + name[:-1] + ">", "<" + name + ">", "<!--", "-->", "<b>", "</b>", "< /" + name + ">", "]]>", "\"</a>\""]), None))
            else: pieces.append((self.text("<"), None))
        if name in ("script", "style"): pieces = [(a, ANY) for a, _ in pieces]
        # nothing may close it early
        content = "".join(a for a, _ in pieces)
        import re
        if re.search(r"</%s([\s>/]|$)" % name, content + "</", re.I): pieces = []
        if pieces and pieces[-1][0].endswith("<"): pieces.append((" ", pieces[-1][1] and ANY))
        s = self.start(t)[1]
        if s[-1][0] == "/>": s[-1] = (">", "symbol_punc"); s[-2] = (" ", None)
        e = [("</", "symbol_punc"), (tag + "/", ANY), (self.pick(["", " "]), ANY), (">", "symbol_punc")] if self.p(.15) else self.end(tag)[1]
        return ("raw text: " + name, s + merge(pieces) + e)
    def fix(self, d):
        """Text next to text must not form a reference."""
        out = []
        for it in d:
            if out and out[-1][0] == "text" and it[0] == "text": continue
            if out and out[-1][0] == "text" and it[0] == "reference" and False: continue
            out.append(it)
        return out
    rejoin = fix
    def doc(self):
        d = self.fix([self.element() for _ in range(max(1, self.size() // 3))])
        if self.p(.05): d.insert(0, ("byte order mark", [("\ufeff", None)]))
        if self.p(.1):
            k = self.r.randrange(4)
            if k == 0: d.append(("unterminated", [("<!--", "comment_delim"), (super().text().replace("-", "").lstrip(">"), "comment")]))
            elif k == 1: d.append(("unterminated", [("<![CDATA[", "name_macro"), (super().text().replace("]", ""), None)]))
            elif k == 2: d.append(("unterminated", [("<", "symbol_punc"), ("a", "markup_tag"), (" ", None), ("b", "markup_attr"), ("=", "symbol_punc"), ("\"" + self.text("\"&"), "string")]))
            else: d.append(("unterminated", [("<", "symbol_punc"), (self.name(), "markup_tag"), (" ", None), ("b", "markup_attr")]))
        return lex.Doc(d)

class Xml(Markup):
    exact = Markup.exact | {"XML declaration", "bad reference", "cdata", "document type"}
    WS = " \t\n\r   "
    EXTRA = "·\u0300\u036f\u203f\u2040éΩ中\U00010000\U000effff\u037f\u2070\u3001\ufffd"
    KW = ("EMPTY", "ANY", "SYSTEM", "PUBLIC", "NDATA", "CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN", "NOTATION")
    def name(self):
        if self.p(.15): return self.pick(["ANYTHING", "EMPTY-x", "x-ID", "PUBLICATION", "SYSTEMS", "NDATA1", "_", ":", "a:b", "xml-stylesheet", "XML2", "x.y"])
        s = self.word(start=ASCII_START + ":", cont=ASCII_CONT + "-.:", uni=False)
        if self.p(.15): i = self.r.randint(1, len(s)); s = s[:i] + self.pick(self.EXTRA) + s[i:]
        elif self.p(.05): s = self.pick("éΩ中\U00010000\U000effff\u37f0\u2070\u3001\ufffd\u00c0\u200c") + s
        return "n" if s in self.KW or s.casefold() == "xml" else s
    def reference(self):
        k = self.r.randrange(3)
        return "&" + (self.name() if k == 0 else "#" + self.digits(D) if k == 1 else "#x" + self.digits(HEX)) + ";"
    BAD = ["& ", "&;", "&#;", "&#x;", "&#X1;", "&1;", "&a b;", "&-x;"]
    def value(self, markup=False, bad=True):
        q = self.pick("\"'"); v = []
        for _ in range(self.r.randint(0, 3)):
            x = self.r.random()
            if x < .25: v.append((self.reference(), "string_escape"))
            elif x < .35 and bad:
                b = self.pick(self.BAD if markup else self.BAD + ["<", "<"])
                v += [(b[0], "error"), (b[1:], "string")]
            else: v.append(("".join(c for c in super().text(T + ("<" if markup else "")) if c != q), "string"))
        return [(q, "string_delim")] + self.join(v) + [(q, "string_delim")]
    def join(self, v):
        out = []
        for t, ty in v:
            if t and out and out[-1][1] == ty == "string": out[-1] = (out[-1][0] + t, ty)
            elif t: out.append((t, ty))
        return out
    def start(self):
        ss = [("<", "symbol_punc"), (self.name(), "markup_tag")]
        for _ in range(self.r.randint(0, 3) if self.p(.95) else self.r.randint(3, 12)):
            ss += [(self.ws(True), None), (self.name(), "markup_attr"), (self.ws(), None), ("=", "symbol_punc"), (self.ws(), None)] + self.value()
        return ("tag", ss + [(self.ws(), None), (self.pick([">", ">", "/>"]), "symbol_punc")])
    def comment(self):
        t = without(super().text(T + "<&") + self.pick(["", "", "-x", ">", "->x", "<!-x", "]]>", "?>"]), "--").rstrip("-")
        return ("comment", [("<!--", "comment_delim"), (t, "comment"), ("-->", "comment_delim")])
    def pi(self):
        n = self.name()
        data = without(super().text(T + "<&") + self.pick(["", "xml", "xml version='1'", "?", ">", "<a>"]), "?>").rstrip("?") if self.p(.8) else ""
        return ("processing instruction", [("<?", "symbol_punc"), (n, "name_macro"), (self.pick(" \n\t") if data else self.ws(), None), (data, None), ("?>", "symbol_punc")])
    def literal(self):
        q = self.pick("\"'")
        return [(q, "string_delim"), ("".join(c for c in super(Markup, self).text(T) if c not in q + "&<"), "string"), (q, "string_delim")]
    def external(self):
        if self.p(.5): return [("SYSTEM", "keyword"), (self.ws(True), None)] + self.literal()
        return [("PUBLIC", "keyword"), (self.ws(True), None)] + self.literal() + [(self.ws(True), None)] + self.literal()
    def pref(self): return ("%" + self.name() + ";", "string_escape")
    def model(self, depth):
        ss = [("(", "symbol_punc")]
        sep = self.pick("|,")
        for i in range(self.r.randint(1, 4)):
            if i: ss += [(self.ws(), None), (sep, "symbol_punc")]
            ss.append((self.ws(), None))
            if depth and self.p(.25): ss += self.model(depth - 1)
            elif self.p(.1): ss.append(self.pref())
            else: ss += [(self.name(), "name"), (self.pick(["", "", "?", "*", "+"]), "symbol_punc")]
        return ss + [(self.ws(), None), (")", "symbol_punc"), (self.pick(["", "", "?", "*", "+"]), "symbol_punc")]
    def declaration(self):
        x = self.r.random(); W = lambda: (self.ws(True), None)
        if x < .12: return self.comment()
        if x < .2: return self.pi()
        if x < .27: return ("parameter reference", [self.pref()])
        end = [(self.ws(), None), (">", "name_macro")]
        if x < .5:
            m = [[("EMPTY", "keyword")], [("ANY", "keyword")], self.model(2), [("(", "symbol_punc"), (self.ws(), None), ("#PCDATA", "keyword"), (self.ws(), None), ("|", "symbol_punc"), (self.ws(), None), (self.name(), "name"), (self.ws(), None), (")", "symbol_punc"), ("*", "symbol_punc")]]
            return ("element declaration", [("<!", "name_macro"), ("ELEMENT", "name_macro"), W(), (self.name(), "name"), W()] + self.pick(m) + end)
        if x < .7:
            ss = [("<!", "name_macro"), ("ATTLIST", "name_macro"), W(), (self.name(), "name")]
            for _ in range(self.r.randint(0, 3)):
                ss += [W(), (self.name(), "name"), W()]
                if self.p(.7): ss.append((self.pick(["CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"]), "keyword"))
                else:
                    if self.p(.4): ss += [("NOTATION", "keyword"), W()]
                    ss += [("(", "symbol_punc"), (self.name(), "name"), (self.ws(), None), ("|", "symbol_punc"), (self.name(), "name"), (")", "symbol_punc")]
                ss.append(W())
                y = self.r.random()
                if y < .5: ss.append((self.pick(["#REQUIRED", "#IMPLIED"]), "keyword"))
                else: ss += ([("#FIXED", "keyword"), W()] if y < .75 else []) + self.value(markup=True, bad=False)
            return ("attribute declaration", ss + end)
        if x < .9:
            ss = [("<!", "name_macro"), ("ENTITY", "name_macro"), W()]
            pe = self.p(.3)
            if pe: ss += [("%", "symbol_punc"), W()]
            ss += [(self.name(), "name"), W()]
            if self.p(.5): ss += self.value(markup=True)
            else: ss += self.external() + ([W(), ("NDATA", "keyword"), W(), (self.name(), "name")] if not pe and self.p(.4) else [])
            return ("entity declaration", ss + end)
        return ("notation declaration", [("<!", "name_macro"), ("NOTATION", "name_macro"), W(), (self.name(), "name"), W()] + self.external() + end)
    def doctype(self):
        ss = [("<!", "name_macro"), ("DOCTYPE", "name_macro"), (self.ws(True), None), (self.name(), "name")]
        if self.p(.4): ss += [(self.ws(True), None)] + self.external()
        ss.append((self.ws(), None))
        if self.p(.6):
            ss += [("[", "symbol_punc"), (self.ws(), None)]
            for _ in range(self.r.randint(0, 5)): ss += self.declaration()[1] + [(self.ws(), None)]
            ss += [("]", "symbol_punc"), (self.ws(), None)]
        return ("document type", ss + [(">", "name_macro")])
    def xml_decl(self):
        ss = [("<?xml", "name_macro")]
        def attr(n, v):
            q = self.pick("\"'")
            return [(self.ws(True), None), (n, "markup_attr"), (self.ws(), None), ("=", "symbol_punc"), (self.ws(), None), (q, "string_delim"), (v, "string"), (q, "string_delim")]
        ss += attr("version", self.pick(["1.0", "1.1", "1.0"]))
        if self.p(.6): ss += attr("encoding", self.pick(["UTF-8", "utf-8", "ISO-8859-1"]))
        if self.p(.4): ss += attr("standalone", self.pick(["yes", "no"]))
        return ("XML declaration", ss + [(self.ws(), None), ("?>", "name_macro")])
    def element(self):
        x = self.r.random()
        if x < .25: return ("text", [(super().text(T), None)])
        if x < .33: return ("reference", [(self.reference(), "string_escape")])
        if x < .38:
            b = self.pick(self.BAD); return ("bad reference", [(b[0], "error"), (b[1:] + " ", None)])
        if x < .65: return self.start()
        if x < .78: return ("end tag", [("</", "symbol_punc"), (self.name(), "markup_tag"), (self.ws(), None), (">", "symbol_punc")])
        if x < .87: return self.comment()
        if x < .93: return ("cdata", [("<![CDATA[", "name_macro"), (without(super().text(T + "<&") + self.pick(["", "<b>", "&amp;", "]", "]]"]), "]]>"), None), ("]]>", "name_macro")])
        return self.pi()
    def doc(self):
        d = []
        if self.p(.4): d.append(self.xml_decl())
        misc = lambda: [self.pick([lambda: ("space", [(self.ws(True), None)]), self.comment, self.pi])() for _ in range(self.r.randint(0, 2))]
        d += misc()
        if self.p(.4): d.append(self.doctype()); d += misc()
        d += [self.start()] + [self.element() for _ in range(max(1, self.size() // 3))]
        if self.p(.1):
            k = self.r.randrange(4)
            if k == 0: d.append(("unterminated", [("<!--", "comment_delim"), (super().text().replace("-", ""), "comment")]))
            elif k == 1: d.append(("unterminated", [("<![CDATA[", "name_macro"), (super().text().replace("]", ""), None)]))
            elif k == 2: d.append(("unterminated", [("<", "symbol_punc"), ("a", "markup_tag"), (" ", None), ("b", "markup_attr"), ("=", "symbol_punc"), ("\"", "string_delim"), ("".join(c for c in super().text() if c not in "\"&<"), "string")]))
            else: d.append(("unterminated", [("<", "symbol_punc"), ("n", "markup_tag"), (" ", None), ("b", "markup_attr")]))
        return lex.Doc(d)
    def rejoin(self, items):
        # the XML declaration only at the start, the document type before all elements
        if any(k == "XML declaration" for k, _ in items[1:]): return None
        seen = False
        for k, _ in items:
            if k == "document type" and seen or k in ("cdata", "unterminated") and not seen: return None
            if k not in ("XML declaration", "comment", "processing instruction", "space"): seen = True
        return items

def c38(chk):
    chk.cov["rule"] = lex.RULE
    n = 60000 if chk.thorough else 16000
    lex.check(chk, "html", corpus.LANG_ID["html"], Html, n)
    lex.check(chk, "xml", corpus.LANG_ID["xml"], Xml, n)
