"""C36: Bash."""
import corpus, lex
from gen import *
from lex import ANY

RESERVED = {"if", "then", "elif", "else", "fi", "time", "for", "in", "until", "while", "do", "done", "case", "esac", "coproc", "select", "function", "{", "}", "[[", "]]", "!"}
LIT = ASCII_CONT + "abcdefghij" * 2 + "./,:+-%@^~_" + LETTERS[:8] + "中😀\u0301"
# a dollar sign which starts no expansion
PLAIN_DOLLAR = ["$.", "$/", "$%", "$+", "$,", "$:"]
SPECIAL = "*@#?-$!0"
BLANKS = [" ", " ", " ", "  ", "\t", " \t "]
DQ_ESC = ["\\$", "\\\"", "\\\\", "\\`", "\\\n"]
I, ID = "string_interpolation", "string_interpolation_delim"

class Bash(Gen):
    exact = frozenset(("command", "option", "variable", "arithmetic expansion", "background", "comment", "continuation", "control operator", "descriptor", "escape", "literal", "positional parameter", "redirection", "single quotes", "special parameter"))
    def blank(self): return ("blank", [(self.pick(BLANKS), None)]) if self.p(.93) else ("continuation", [(self.pick(BLANKS), None), ("\\", "string_escape"), ("\n", ANY), (self.pick(["  ", ""]), None)])
    def literal(self, first, command):
        while True:
            n = self.r.randint(1, 8) if self.p(.95) else self.r.randint(8, 80)
            s = "".join(self.pick(LIT) for _ in range(n))
            if self.p(.15): s += self.pick(["#x", "=1", "[a-z]*", "?", "{a,b}", "!x", "$.", "$/x", "}x", "=#", "]", "*"])
            if first and not command and self.p(.3): s = self.pick(["-", "--"]) + s.lstrip("-")
            if command:
                s = "".join(c for c in s if c not in "=[]*?!{}~")
                if first: s = s.lstrip("-+")
            if first: s = s.lstrip("#}!{~")
            else: s = s.lstrip("}")
            if s and s not in RESERVED and s[-1] != "$" and not s[0] == "}": return s
    def escape(self): return ("escape", [("\\" + self.pick("\\\"'$`;|&()<>#* !{}[]~n€中😀"), "string_escape")])
    def single(self):
        s = without(self.text() + self.pick(["", "\n", "\\", "$x", "${", "$(", "\"", "# "]), "'")
        return ("single quotes", [("'", "string_delim"), (s, "string"), ("'", "string_delim")])
    def dq_text(self):
        while True:
            s = without(self.text() + self.pick(["", "\n", "'", "#x", " # ", ";", "(", ")", "}", "\\n", "\\'", "\\*", "$.", "$ ", "$^"]), "`", "\"")
            s = "".join(s)
            # no accidental expansions and escapes
            ok = True
            for i, c in enumerate(s):
                n = s[i + 1] if i + 1 < len(s) else "\""
                if c == "$" and (n in "({*@#?-$!" or n.isdigit() and n.isascii() or n == "_" or n.isalpha() and n.isascii() or i + 1 == len(s)): ok = False
                if c == "\\" and (n in "$\"\\`\n" or i + 1 == len(s)): ok = False
            if ok: return s
    def double(self, depth):
        ss = [("\"", "string_delim")]
        for _ in range(self.r.randint(0, 4) if self.p(.95) else self.r.randint(4, 20)):
            x = self.r.random()
            if x < .45: ss.append((self.dq_text(), "string"))
            elif x < .6: ss.append((self.pick(DQ_ESC), "string_escape"))
            elif depth > 0:
                k, s2 = self.substitution(depth - 1)
                # what follows a variable must not continue its name
                ss += s2 + [(" ", "string")] if s2[-1][0][-1:].isalnum() or s2[-1][0][-1:] == "_" else s2
        return ("double quotes", ss + [("\"", "string_delim")])
    def substitution(self, depth):
        x = self.r.random()
        if x < .3 or depth <= 0:
            if self.p(.3): return ("special parameter", [("$" + self.pick(SPECIAL), I)])
            if self.p(.3): return ("positional parameter", [("$" + self.pick("123456789"), I)])
            return ("variable", [("$" + self.word(uni=False), I)])
        if x < .65:
            ss = [("${", ID)]
            k = self.r.randrange(7)
            name = self.pick([self.word(uni=False)] * 4 + ["1", "12", "@", "*", "?", "#", "!", "0", "-"])
            if k == 0: ss.append(("#" + self.pick([self.word(uni=False), "@", "*", "x[@]", "arr[*]", "1"]), I))
            elif k == 1: ss.append(("!" + self.word(uni=False) + self.pick(["", "@", "*", "[@]"]), I))
            elif k == 2: ss.append((name if name in "?#!-" else name + self.pick(["", "[@]", "[1]", "^^", ",,", ":1:2", "@Q", ": -1"]).replace(" ", ""), I))
            else:
                ss.append((self.word(uni=False) + self.pick([":-", ":=", ":?", ":+", "-", "+", "=", "?", "#", "##", "%", "%%", "/", "//", "/#", "/%", "^", ","]), I))
                for _ in range(self.r.randint(0, 3)):
                    y = self.r.random()
                    if y < .4: ss.append((without("".join(self.pick(LIT + "#{[]*?=") for _ in range(self.r.randint(1, 6))), "$"), I))
                    elif y < .5: ss += self.escape()[1]
                    elif y < .6: ss.append((self.pick(" \t\n"), None))
                    elif y < .7: ss += self.single()[1]
                    elif y < .8: ss += self.double(depth - 1)[1]
                    elif y < .85: ss.append((self.pick(["(", ")", "|", ";", "&", "<", ">", "&&", "||", ";;"]), ANY))
                    else:
                        s2 = self.substitution(depth - 1)[1]
                        ss += s2
                        if s2[-1][0][-1:].isalnum() or s2[-1][0][-1:] == "_": ss.append((self.pick("./:%"), I))
            return ("parameter expansion", ss + [("}", ID)])
        if x < .88:
            ss = [("$(", ID)] + self.inner(depth - 1)
            if len(ss) > 1 and ss[1][0][:1] == "(": ss.insert(1, (" ", None))
            return ("command substitution", ss + [(")", ID)])
        ss = [("$((", ID)]
        def expr(d):
            ss.append((self.pick(["", " "]), ANY))
            for i in range(self.r.randint(1, 3)):
                if i: ss.append((self.pick(["+", " - ", "*", "/", " << ", "<", " && ", "==", "|", " || ", "%"]), ANY))
                y = self.r.random()
                if y < .25 and d: ss.append(("(", "symbol_parens")); expr(d - 1); ss.append((")", "symbol_parens"))
                elif y < .4: ss.append(("$" + self.word(uni=False), I))
                elif y < .5: ss.extend([("${", ID), (self.word(uni=False), I), ("}", ID)])
                else: ss.append((self.pick(["1", "20", "16#ff", "x", "a", "_b", "0x1F"]), ANY))
            if self.p(.3): ss.append((" ", ANY))
        expr(2)
        return ("arithmetic expansion", ss + [("))", ID)])
    def inner(self, depth):
        """Commands inside of parentheses, as segments."""
        out = []
        for it in self.commands(self.r.randint(1, 2), depth, True): out += it[1]
        return out
    def word_items(self, command, depth, plain=False):
        """A word as items; the first piece is not a comment."""
        out, n = [], 1 if self.p(.7) else self.r.randint(2, 5)
        option = False
        for i in range(n):
            x = self.r.random()
            if plain: x = .1
            prev = out[-1] if out else None
            if prev and prev[0] == "literal": x = max(x, .56)
            if x < .55:
                s = self.literal(i == 0, command)
                if plain: s = s.lstrip("-+#}!{~") or "f"
                if prev and prev[0] in ("variable", "positional parameter", "special parameter"):
                    if prev[0] == "variable" and (s[0].isalnum() and s[0].isascii() or s[0] == "_"): s = self.pick("./:,") + s
                t = "name_shell_command" if command else "name_shell_option" if i == 0 and s[0] == "-" else "string"
                if i == 0: kind = "command" if command else "option" if s[0] == "-" else "literal"
                else: kind = "literal"
                out.append((kind, [(s, t)]))
                if kind != "literal": prev = out[-1]
                if n > 1 and kind in ("command", "option"): out[-1] = ("literal", out[-1][1])
            elif x < .65: out.append(self.escape())
            elif x < .75: out.append(self.single())
            elif x < .87: out.append(self.double(depth))
            else: out.append(self.substitution(depth))
        return out
    def redirection(self, depth):
        out = []
        if self.p(.3): out.append(("descriptor", [(self.pick("0123456789"), "string")]))
        o = self.pick(["<", ">", ">>", "<>", "<<<", "<", ">", ">&", "<&"] + ([] if out else ["&>", "&>>"]))
        out.append(("redirection", [(o, "symbol_op")]))
        if self.p(.4) and o not in (">&", "<&"): out.append(self.blank())
        if o in (">&", "<&"): out.append(("descriptor", [(self.pick("0129"), "string")]))
        else: out += self.word_items(False, depth, plain=self.p(.7))
        # a target which looks like an option is one to the highlighter; not generated
        if out[-1][0] == "option" or any(k == "option" for k, _ in out): return self.redirection(depth)
        if any(t == "name_shell_option" for _, ss in out for _, t in ss if not _ .startswith("$")): return self.redirection(depth) if depth > 0 else [("redirection", [(">", "symbol_op")]), ("literal", [("file", "string")])]
        return out
    def command(self, depth):
        out = []
        if depth > 0 and self.p(.1):
            out.append(("subshell", [("(", "symbol_parens")] + self.inner(depth - 1) + [(")", "symbol_parens")]))
            for _ in range(self.r.randint(0, 1)): out += [self.blank()] + self.redirection(depth - 1)
            return out
        out += self.word_items(True, depth)
        for _ in range(self.r.randint(0, 4) if self.p(.95) else self.r.randint(4, 12)):
            if self.p(.15):
                r = self.redirection(depth - 1)
                if r[0][0] == "descriptor" or self.p(.6): out.append(self.blank())
                elif out[-1][1][-1][0][-1:].isdigit(): out.append(self.blank())
                out += r
            elif depth > 0 and self.p(.08):
                out += [self.blank(), ("process substitution", [(self.pick("<>"), "symbol_op"), ("(", "symbol_parens")] + self.inner(depth - 1) + [(")", "symbol_parens")])]
            else: out += [self.blank()] + self.word_items(False, depth)
        if self.p(.2): out.append(self.blank())
        return out
    def comment(self):
        return ("comment", [("#", "comment_delim"), ("".join(c for c in self.text() if c not in "\r\n\v") + self.pick(["", "", ")", "}", "'", "\\"]), "comment")])
    NEWLINE = ["\n", "\n", "\n", "\n\n", "\n  ", "\n\t", "\r\n"]
    def newline(self): return ("newline", [(self.pick(self.NEWLINE), None)])
    def commands(self, n, depth, nested=False):
        out = []
        for i in range(n):
            if self.p(.1 if not nested else .03): out += [self.comment(), ("newline", [("\n", None)])]
            if self.p(.1): out.append(("blank", [(self.pick(BLANKS), None)]))
            out += self.command(depth)
            if i + 1 < n:
                x = self.r.random()
                if x < .5:
                    if self.p(.15):
                        out += [self.blank(), self.comment(), ("newline", [("\n", None)])]
                    else: out.append(self.newline())
                elif x < .6 and not nested: out += [self.blank(), ("background", [("&", "symbol_op")]), self.newline()]
                else:
                    out.append(("control operator", [(self.pick([";", "|", "||", "&&", ";", "|"]), "symbol_op")]))
                    if self.p(.7): out.append(("blank", [(self.pick([" ", "  ", "\n", "\t"]), None)]))
        return out
    def doc(self):
        d = self.commands(max(1, self.size() // 6), self.r.randint(0, 3))
        if self.p(.1):
            k = self.r.randrange(4)
            d += [("newline", [("\n", None)]), ("command", [("x", "name_shell_command")]), ("blank", [(" ", None)])]
            if k == 0: d.append(("unterminated", [("'", "string_delim"), (without(self.text(), "'"), "string")]))
            elif k == 1: d.append(("unterminated", [("\"", "string_delim"), (self.dq_text(), "string")]))
            elif k == 2: d.append(("unterminated", [("${", ID), (self.word(uni=False), I)]))
            else: d.append(("unterminated", [("$(", ID), ("x", "name_shell_command"), (" ", None), ("y", "string")]))
        elif self.p(.3): d.append(self.newline())
        return lex.Doc(d)
    def rejoin(self, items):
        # whole lines only: a line starts after a newline item
        return None

def c36(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "bash", corpus.LANG_ID["bash"], Bash, 120000 if chk.thorough else 24000)
