"""C40: Markdown."""
import re
import corpus, lex
from gen import *
from lex import ANY

F, CODE, LINK, ESC, H = "symbol_formatting", "text_code", "text_link", "string_escape", "text_heading"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
class Markdown(Gen):
    """Blocks and inline elements in the parts of CommonMark which the line-based highlighter recognises.
    ban: characters which must not occur, since a delimiter around the place uses them."""
    exact = frozenset(("heading mark", "thematic break", "list marker", "fence", "escape", "entity", "autolink", "code line", "code span", "comment", "emphasis", "image", "link", "long comment", "quote"))
    def clean(self, t, *bad): return without(t, "\n", "\r", *bad)
    def words(self, ban, n=None):
        """Plain text, which starts and ends with a letter."""
        out = []
        for _ in range(n or self.r.randint(1, 4)):
            x = self.r.random()
            if x < .6: w = self.word(cont=ASCII_CONT.replace("_", ""), start=ASCII_START.replace("_", ""), uni=self.p(.2))
            elif x < .7: w = self.pick(["snake_case_x", "a_b", "1.5x", "e.g", "it's", "(see)x", "100%x", "x#y", "C++x", "a-b", "{x}y", "a|b", "$5x", "x!y", "a>b", "f@x", "~z", "a:b", "^2x", "h=x"])
            elif x < .8: w = "w" + self.pick([" * ", " < ", " & ", " &x ", " &; ", " && ", " \\ ", " > ", " # ", " - ", " + ", " &#; ", " &#x; ", " ! ", " 5*", " <5 ", "\\a ", " ~~~ ", " ** "]) + "w"
            else: w = self.word(uni=True).replace("_", "") or "w"
            for c in ban: w = w.replace(c, "")
            if not w or not w[0].isalnum() or not w[-1].isalnum(): w = "w" + w + "w"
            # a star before a letter would open emphasis
            w = without(w, "5*")
            out.append(w)
        return " ".join(out)
    def code(self, ban):
        n = self.pick([1, 1, 1, 2, 3])
        t = self.clean(self.text() + self.pick(["", "*x*", "_y_", "<!--", "\\", "&amp;", "[a](b)"]), "`", "[" if "[" in ban else "\n", "]" if "[" in ban else "\n", "-->", "<" if "<" in ban else "\n") or "x"
        if n > 1 and self.p(.4): t = "x" + "`" * self.pick([1, n - 1]) + "y" + t
        t = without(t, "`" * 3) if n == 3 else t
        return ("code span", [("`" * n, "string_delim"), (t, CODE), ("`" * n, "string_delim")])
    def url(self, ban):
        u = self.pick(["http://example.com/a?b=c&d#e", "/x/y.png", "#anchor", "mailto:a@b", "foo\\)bar", "a%20b", "x-y~z", "é中", ""])
        for c in ban: u = u.replace(c, "")
        return u.replace("`", "")
    def title(self, ban):
        if self.p(.75): return ""
        q = self.pick("\"'")
        t = self.pick(["title", "a (b) c", "x) y", "", "é", "a, b."])
        return self.pick([" ", "  ", "\t"]) + q + t + q + self.pick(["", " "])
    def link(self, depth, ban):
        out = [("link", [("[", F)])] + self.inline(depth - 1, ban + "[]") + [("link", [("](", F)])]
        u = self.url(ban)
        if self.p(.1): u = "<" + u.replace("\\)", ") x") + ">"
        return out + [("link", [(u, LINK), (self.title(ban), None), (")", F)])]
    def emphasis(self, depth, ban, c=None):
        cs = [c for c in "*_" if c not in ban]
        c = c or self.pick(cs); n = self.pick([1, 1, 2, 2, 3])
        return [("emphasis", [(c * n, F)])] + self.inline(depth - 1, ban + c) + [("emphasis", [(c * n, F)])]
    def comment(self, ban):
        t = self.clean(self.text() + self.pick(["", "*", "[", "`", "\\", "--"]), ">", "-->", *([c for c in ban] or ["\n"]))
        t = " " + t.rstrip("-") + " "
        if any(c in ban for c in "-!<"): return None
        return ("comment", [("<!--", "comment_delim"), (t.replace("`", "") if ban else t, "comment"), ("-->", "comment_delim")])
    def inline(self, depth, ban="", plain=None):
        """Elements which begin and end with a letter."""
        t = plain if not ban else (H, None) if plain else None
        out = [("text", [(self.words(ban), plain)])]
        for _ in range(self.r.randint(0, 4) if depth > 0 else self.r.randint(0, 1)):
            x = self.r.random(); sp = self.pick([" ", " ", "  ", "x", "5", ", ", "-", "("])
            if x < .2: el = [self.code(ban)]
            elif x < .3:
                e = self.pick([p for p in PUNCT if p not in (ban + "`" if ban else "") or p in "[]"])
                el = [("escape", [("\\" + e, ESC)])]
            elif x < .4: el = [("entity", [(self.pick(["&amp;", "&copy;", "&frac34;", "&#0;", "&#1234567;", "&#x1F600;", "&#Xd;", "&x;"]), ESC)])]
            elif x < .5: el = [("autolink", [("<", F), (self.pick(["http://a.b/c?d=e&f#g", "mailto:x@y.z", "a@b.c", "x+y.z-1:", "https://é.com/"]), LINK), (">", F)])]
            elif x < .56:
                c = self.comment(ban)
                if not c: continue
                el = [c]
            elif depth > 0 and x < .78 and ("*" not in ban or "_" not in ban): el = self.emphasis(depth, ban); sp = self.pick([" ", ", ", " ("]) if el[0][1][0][0][0] == "_" else sp
            elif "[" not in ban:
                if self.p(.7): el = self.link(depth, ban)
                else: el = [("image", [("![", F), (self.words(ban + "[]"), None), ("](", F), (self.url(ban), LINK), (self.title(ban), None), (")", F)])]
            else: continue
            under = el[0][0] == "emphasis" and el[0][1][0][0][0] == "_"
            if depth > 0 and not under and "_" not in ban and el[0][0] in ("code span", "autolink", "comment", "link", "image", "escape") and self.p(.2):
                # the end of an element is punctuation, after which an underscore can open emphasis
                el = el + self.emphasis(depth, ban, "_"); under = True
            after = self.pick([" ", ", ", ") "]) if under else self.pick([" ", ", ", "", "-"])
            if "]" in ban or "[" in ban: pass
            out += [("text", [(sp, plain)])] + self.typed(el, plain) + [("text", [(after, plain), (self.words(ban), plain)])]
        return out
    def typed(self, el, plain):
        """Text inside of other elements of a heading may have the type of headings or none."""
        if plain is None: return el
        return [(k, [(t, (H, None) if ty is None else ty) for t, ty in ss]) for k, ss in el]
    def literal(self, items):
        """In headings, characters which could begin an element, but do not, are not judged (a test pins that they have no type)."""
        return [(k, [(x, ANY if x in "`<\\&![*_" and k == "text" else t) for y, t in ss for x in re.split(r"([`<\\&!\[*_])", y) if x] if k == "text" else ss) for k, ss in items]
    # ---- blocks
    def paragraph(self):
        out = []
        for _ in range(self.r.randint(1, 3)):
            lead = self.pick(["", "", "", " ", "   "])
            out += [("text", [(lead, None)])] + self.inline(self.r.randint(0, 3)) + [self.eol()]
        if self.p(.15):
            w = self.words("*_[]()<>`&\\")
            out += [("text", [(w + self.pick([" ", "x", "-"]) + self.pick(["[%s](x", "![%s](/x/y", "[%s", "[%s](", "`%s", "``%s", "<http://x", "<x@y", "[%s](<x", "[%s](x \"t", "[%s](x 't'", "&amp", "&#12", "&#x1", "**%s", "*%s", "__", "!", "![", "[]", "<!-", "\\", "[%s](x\\", "[%s] (x"]).replace("%s", w), None), (self.nl, None)])]
            if out[-1][1][0][0].endswith("-"): pass
            return out
        if self.p(.12): out += [("underline", [(self.pick(["===", "---", "==========", "-----"]), F), (self.pick(["", "", "  "]), ANY), (self.nl, None)])]
        return out
    def eol(self): return ("line break", [(self.pick(["", "", "", "  ", " "]) if self.p(.5) else "", None), (self.nl, None)])
    def heading(self):
        out = [("space", [(self.pick(["", "", "", " ", "  ", "   "]), None)]), ("heading mark", [("#" * self.r.randint(1, 6), F)])]
        if self.p(.05): return out + [("line break", [(self.pick(["", " ", "  "]), None), (self.nl, None)])]
        out.append(("space", [(self.pick([" ", "\t"]), None)]))
        out += self.literal(self.inline(self.r.randint(0, 3), "", H))
        if self.p(.3): out.append(("closing", [(self.pick([" ", "  "]) + "#" * self.r.randint(1, 7) + self.pick(["", "", " ", "   "]), None)]))
        return out + [("line break", [(self.nl, None)])]
    def thematic(self):
        return [("space", [(self.pick(["", "", " ", "   "]), None)]), ("thematic break", [(self.pick(["***", "---", "___", "* * *", "- - -", "_____________", " ** * ** ".strip(), "-\t-\t-"]), F)]), ("line break", [(self.nl, None)])]
    def fenced(self, end=False):
        c = self.pick("`~"); n = self.r.randint(3, 5)
        info = self.pick(["", "cpp", " python", "c++ x=\"y\"", "~" if c == "`" else "`", "é", "*x*"])
        if info and info[0] == c: info = ""
        out = [("space", [(self.pick(["", "", " ", "   "]), None)]), ("fence", [(c * n, "string_delim")]), ("info", [(info, None), (self.nl, None)])]
        for _ in range(self.r.randint(0, 5)):
            x = self.r.random()
            if x < .15: l = ""
            elif x < .3: l = c * (n - 1) if self.p(.5) else ("~" if c == "`" else "`") * (n + 1)
            elif x < .4: l = c * n + self.pick(["x", " x"])
            elif x < .45: l = "    " + c * n
            elif x < .5: # a fence of both characters is none
                o = "~" if c == "`" else "`"; k = self.r.randint(1, n - 1); l = self.pick([c * k + o * (n - k), o * k + c * (n - k), c * n + o, o + c * n, c * k + o * (n - k) + c])
            elif x < .55: l = self.pick(["# x", "> y", "<!-- z", "*a*", "- b", "    c"])
            else: l = self.clean(self.text())
            s = l.strip(" \t")
            if len(s) >= n and s == c * len(s) and not l.startswith("    "): l += "x"
            out.append(("code line", [(l, CODE), (self.nl, None)]))
        if end: return out
        return out + [("space", [(self.pick(["", "", " ", "   "]), None)]), ("fence", [(c * (n + self.pick([0, 0, 0, 1, 4])), "string_delim")]), ("line break", [(self.pick(["", "", " ", "\t"]), None), (self.nl, None)])]
    def indented_line(self):
        l = self.pick(["x", "{", "# a", "> b", "```", "<!--", "*a", "\\n", "int x;", "&amp;"]) + self.clean(self.text())
        return [("indentation", [(self.pick(["    ", "    ", "\t"]), None)]), ("code line", [(l, CODE)]), ("line break", [(self.nl, None)])]
    def indented(self): return [("blank", [(self.nl, None)])] + [y for _ in range(self.r.randint(1, 3)) for y in self.indented_line()]
    def marker(self): return self.pick(["-", "+", "*", "1.", "2)", "10.", "0.", "123456789.", "007)"])
    def item(self, lead):
        return [("space", [(" " * lead, None)]), ("list marker", [(self.marker(), F)]), ("space", [(self.pick([" ", " ", "\t", "  "]), None)])] + self.inline(self.r.randint(0, 2)) + [self.eol()]
    def items(self):
        out = []; lead = self.pick([0, 0, 1, 3])
        for _ in range(self.r.randint(1, 5)):
            out += self.item(lead)
            lead = max(0, lead + self.pick([0, 0, 0, 2, 4, -2, -4]))
        return out
    def quote(self):
        out = []
        for _ in range(self.r.randint(1, 3)):
            out.append(("space", [(self.pick(["", "", " ", "   "]), None)]))
            for _ in range(self.pick([1, 1, 1, 2, 3])): out.append(("quote", [(">", F), (self.pick([" ", " ", ""]), None)]))
            if out[-1][1][1][0] == "": out[-1] = ("quote", [(">", F), (" ", None)])
            x = self.r.random()
            if x < .55: out += self.inline(self.r.randint(0, 2)) + [("line break", [(self.nl, None)])]
            elif x < .7: out += self.heading()
            elif x < .8: out += self.item(self.r.randint(0, 2))
            elif x < .88: out += self.thematic()
            elif x < .95: out += self.indented_line()
            else: out.append(("line break", [(self.nl, None)]))
        return out
    def long_comment(self):
        ss = [("<!--", "comment_delim")]
        for i in range(self.r.randint(1, 4)):
            t = self.clean(self.pick(["", " "]) + self.text() + self.pick(["", "# x", "```", "- y", "--"]), "-->", ">", "<!--") if i else " x" + self.clean(self.text(), ">", "<!--")
            ss += [(t.rstrip("-"), "comment"), (self.nl, None)]
        return [("long comment", ss + [(self.pick(["", " y "]), "comment"), ("-->", "comment_delim")])] + ([("text", [(" ", None)])] + self.inline(1) if self.p(.5) else []) + [self.eol()]
    def doc(self):
        self.nl = self.pick(["\n", "\n", "\n", "\r\n"])
        d = []
        n = max(1, self.size() // 10)
        for i in range(n):
            x = self.r.random()
            d += self.paragraph() if x < .3 else self.heading() if x < .45 else self.thematic() if x < .52 else self.fenced() if x < .65 else self.items() if x < .78 else self.quote() if x < .88 else self.indented() if x < .94 else self.long_comment()
            for _ in range(self.pick([1, 1, 1, 2])): d.append(("blank", [(self.pick(["", "", " ", "\t", "   "]), None), (self.nl, None)]))
        if self.p(.1): d += self.fenced(True)
        return lex.Doc(d)
    def rejoin(self, items): return None

def c40(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "markdown", corpus.LANG_ID["markdown"], Markdown, 60000 if chk.thorough else 24000)
    # what CommonMark says otherwise, and tests pin; listed as known findings
    lex.witness(chk, "markdown", corpus.LANG_ID["markdown"], {
        "escaped-delimiter": [("emphasis", [("*", F), ("a", None), ("\\*", ESC), ("b", None), ("*", F)])],
        "code-in-link-text": [("text", [("[not a ", None), ("`", "string_delim"), ("link](/foo", CODE), ("`", "string_delim"), (")", None)])],
        "parentheses-in-destination": [("link", [("[", F), ("a", None), ("](", F), ("b(c)d", LINK), (")", F)])],
        "heading-with-literal": [("heading", [("#", F), (" ", None), ("a", H), ("[", H), ("b", H)])],
    })
