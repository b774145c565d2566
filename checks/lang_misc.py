"""C41: TeX and COWEL. C42: NASM and LLVM. C43: EBNF, diffs and plain text."""
import corpus, lex
from gen import *

D = "0123456789"
UTEXT = "éß中😀\u0301\u200d\u00a0\u2028\U0010ffff\ufeff"

# ---------------------------------------------------------------------------------------------- TeX
SPECIAL = "~%$#&^_@"
class TeX(TokenGen):
    PLAIN = "abcxyzABZ019 .,:;!?+-*/=<>()|'\"`" + UTEXT
    def words(self):
        t = self.text(self.PLAIN)
        if self.p(.2): t += self.pick(["\n", "\r\n", "\n\n", "\t"]) + self.text(self.PLAIN)
        return ("text", [(t or " ", None)])
    def command(self): return ("command", [("\\" + self.word(cont="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", start="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", uni=False), "markup_tag")])
    def escape(self):
        return ("escape", [("\\" + self.pick(list("{}[]$&#%_^~\\ ,;:!@/-'\"`=.()<>|0123456789+*?\n\t") + list(UTEXT)), "string_escape")])
    def brace(self): return ("brace", [(self.pick("{}"), "symbol_brace")])
    def square(self): return ("square", [(self.pick("[]"), "symbol_square")])
    def special(self): return ("special", [(self.pick(SPECIAL), "symbol_op")])
    def group(self):
        o, c, t = self.pick([("{", "}", "symbol_brace"), ("[", "]", "symbol_square")])
        w = self.words()[1][0][0]
        return ("argument", [(o, t), (w, None), (c, t)])
    exact = frozenset(("command", "escape", "brace", "square", "special", "argument"))
    def element(self):
        x = self.r.random()
        return self.words() if x < .3 else self.command() if x < .5 else self.escape() if x < .62 else self.group() if x < .74 else self.brace() if x < .82 else self.square() if x < .88 else self.special()
    def sep(self, a, b):
        if a[0] == "command" and b[0] == "text" and b[1][0][0][:1].isascii() and b[1][0][0][:1].isalpha(): return " "
        return ""
    def doc(self):
        # a backslash at the very end is an error
        d = self.sequence(self.size())
        if self.p(.05): d.append(("final backslash", [("\\", "error")]))
        d = lex.Doc(d); d.lang = corpus.LANG_ID[self.pick(["tex", "latex"])]
        return d

# ---------------------------------------------------------------------------------------------- COWEL
DIR, ESC, ERR = "markup_tag", "string_escape", "error"
KW = {"unit": "keyword", "null": "keyword", "let": "keyword", "true": "bool", "false": "bool", "infinity": "value"}
class Cowel(Gen):
    """Emits items (kind, segments) in order; nesting becomes flat."""
    OPS = ["||", "&&", "==", "!=", "<=", ">=", "+", "*", "/", "%", "<", ">", "~", "!", "-"]
    exact = frozenset(("directive", "escape", "identifier", "attribute name", "operator", "punctuation", "block comment", "brace", "ellipsis", "function", "keyword", "number", "parenthesis", "quoted name", "reserved escape", "splice", "string"))
    PLAIN = "abcxyzABZ019 .,:;!?+-*/=<>()|'`~%$#&^_@[]" + UTEXT
    def ident(self, kw=True):
        if kw and self.p(.1): return self.pick(["units", "nul", "lets", "True", "False1", "infinity_", "_null", "e5", "x0"])
        return self.word(avoid=set(KW) | {"fun"}, uni=False)
    def escape(self):
        x = self.r.random()
        if x < .5: return [("escape", [("\\" + self.pick("{}\\\""), ESC)])]
        if x < .6:
            n = self.pick([4, 8]); h = self.pick(["0123456789abcdef", "0123456789ABCDEF"])
            return [("escape", [("\\+" + "".join(self.pick(h) for _ in range(n)), ESC)]), ("text", [(" ", self.tt)])]
        if x < .7: return [("escape", [("\\'" + self.pick(["LATIN SMALL LETTER A", "DIGIT ONE", "HYPHEN-MINUS", "ZERO WIDTH JOINER"]) + "'", ESC)])]
        if x < .8:
            # only the backslash of an escaped line end is highlighted
            if self.nl_ok: return [("escaped line end", [("\\", ESC), (self.pick(["\n", "\r\n"]), ANYT), ("x", self.tt)])]
        if x < .9: return [("reserved escape", [("\\" + self.pick("!#$%&,-./;<=>?@[]^`|~)"), ERR)])]
        return [("reserved escape", [("\\" + self.pick(UTEXT), ERR)])]
    def comment(self, line):
        if line and self.p(.5):
            t = without(self.text(self.PLAIN + "{}\\\""), "\n", "\r")
            return [("line comment", [("\\:", "comment_delim"), (t, "comment"), (self.pick(["\n", "\r\n"]), ANYT), ("x", self.tt) if self.in_text else (" ", None)])]
        t = self.text(self.PLAIN + "{}\"\n*")
        return [("block comment", [("\\*", "comment_delim"), (without(t, "*\\"), "comment"), ("*\\", "comment_delim")])]
    def content(self, depth, kind):
        """Markup: kind is document, block, string or name."""
        save = (self.tt, self.in_text, self.nl_ok)
        self.tt = {"document": None, "block": None, "string": "string", "name": "markup_attr"}[kind]; self.in_text = True; self.nl_ok = True
        out = []
        n = self.pick([0, 1, 2, 3]) if depth else self.pick([1, 3, 5, 8, 15])
        if kind == "name": n = self.pick([1, 1, 2])
        for _ in range(n):
            x = self.r.random()
            if kind == "name": x *= .65
            if x < .35 or depth > 5:
                t = self.text(self.PLAIN + ("\"" if kind in ("document", "block") else "") + ("{}" if kind in ("document", "string", "name") else "") + ("\n" if self.nl_ok and kind != "name" else ""))
                if kind == "block" and self.p(.3): t += "{" + self.text(self.PLAIN + "\"") + "{}" + "}"
                out.append(("text", [(t, self.tt)]))
            elif x < .55: out += self.escape()
            elif x < .65: out += self.comment(kind != "name")
            elif x < .85:
                out.append(("directive", [("\\" + self.ident(False), DIR)]))
                y = self.r.random()
                if y < .5: out += self.group(depth + 1)
                if y > .3: out += self.block(depth + 1)
                # what follows must not be taken for the name, arguments or block
                out.append(("text", [(self.pick([" ", ".", ";"]), self.tt)]))
            elif x < .95:
                out.append(("splice", [("\\(", "string_interpolation_delim")])); out += self.expression(depth + 1)
                out.append(("splice", [(")", "string_interpolation_delim")]))
            elif kind == "document" or self.p(.3):
                out.append(("line splice", [("\\ ", "string_interpolation_delim")]))
                s = self.nl_ok; self.nl_ok = False
                out += self.expression(depth + 2)
                self.nl_ok = s
                out.append(("line splice", [(self.pick(["\n", "\r\n"]), None), ("x", self.tt)]))
        self.tt, self.in_text, self.nl_ok = save
        return out
    def block(self, depth): return [("brace", [("{", "symbol_brace")])] + self.content(depth, "block") + [("brace", [("}", "symbol_brace")])]
    def blank(self):
        x = self.r.random()
        if x < .6: return []
        if x < .9: return [("space", [(self.pick([" ", "  ", "\t"] + (["\n", "\r\n "] if self.nl_ok else [])), None)])]
        s = self.tt, self.in_text; self.tt, self.in_text = None, False
        c = self.comment(self.nl_ok); self.tt, self.in_text = s
        if not self.nl_ok: c = [(k, [(t.replace("\n", ""), ty) for t, ty in ss]) for k, ss in c]
        return c
    def group(self, depth):
        out = [("parenthesis", [("(", "symbol_parens")])]
        n = self.pick([0, 1, 2, 3]) if depth < 5 else self.pick([0, 1])
        for i in range(n):
            if i: out += self.blank() + [("punctuation", [(",", "symbol_punc")])]
            out += self.blank()
            x = self.r.random()
            if x < .08: out.append(("ellipsis", [("...", "name_attr")])); continue
            if x < .4: out.append(("attribute name", [(self.ident(), "markup_attr")])); out += self.blank() + [("punctuation", [("=", "symbol_punc")])] + self.blank()
            elif x < .5:
                out += [("quoted name", [('"', "markup_attr_delim")])] + self.content(9, "name") + [("quoted name", [('"', "markup_attr_delim")])]
                out += self.blank() + [("punctuation", [("=", "symbol_punc")])] + self.blank()
            out += self.expression(depth)
        return out + self.blank() + [("parenthesis", [(")", "symbol_parens")])]
    def expression(self, depth):
        out = self.primary(depth)
        while self.p(.2) and depth < 6:
            o = self.pick(self.OPS)
            out += [("space", [(" ", None)]), ("operator", [(o, "symbol_op")]), ("space", [(" ", None)])] + self.primary(depth + 1)
        return out
    def number(self):
        x = self.r.random()
        if x < .4: return ("number", [(self.digits(D), "number")])
        if x < .7:
            b, ds = self.pick([("0b", "01"), ("0o", "01234567"), ("0x", HEX)])
            return ("number", [(b, "number_decor"), (self.digits(ds), "number")])
        s = [(self.digits(D), "number")]
        if self.p(.8): s += [(".", "number_delim"), (self.digits(D), "number")]
        if self.p(.5): s += [(self.pick(["e", "E", "e+", "E+", "e-", "E-"]), "number_delim"), (self.digits(D, 2), "number")]
        return ("number", s)
    def primary(self, depth):
        x = self.r.random()
        if depth > 6: x *= .55
        if x < .25: return [("identifier", [(self.ident(), "name_var")])]
        if x < .37: w = self.pick(list(KW)); return [("keyword", [(w, KW[w])])]
        if x < .40: return [("keyword", [("-", "value_delim"), ("infinity", "value")])]
        if x < .45: return [("function", [("fun", "keyword"), (self.pick([" ", "  ", "\t"]), None), (self.ident(), "name_function_decl")]), ("space", [(" ", None)])]
        if x < .60: return [self.number()]
        if x < .78: return [("string", [('"', "string_delim")])] + self.content(depth + 1, "string") + [("string", [('"', "string_delim")])]
        if x < .84: return self.block(depth + 1)
        if x < .89: return self.group(depth + 1)
        out = [("directive", [(self.ident(), DIR)])] + self.blank()
        if self.p(.7): return out + self.group(depth + 1) + (self.blank() + self.block(depth + 1) if self.p(.3) else [])
        return out + self.block(depth + 1)
    def doc(self):
        self.tt, self.in_text, self.nl_ok = None, True, True
        out = []
        for it in self.content(0, "document"):
            # two identifiers or numbers never touch, as each is followed by an operator, a comma, a bracket or the end
            out.append(it)
        return lex.Doc(out)
    def rejoin(self, items): return None
ANYT = lex.ANY

def c41(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "tex", corpus.LANG_ID["tex"], TeX, 40000 if chk.thorough else 6000)
    lex.check(chk, "cowel", corpus.LANG_ID["cowel"], Cowel, 80000 if chk.thorough else 12000)

# ---------------------------------------------------------------------------------------------- NASM
def _regs():
    r = {"eax", "ebx", "ecx", "edx", "esi", "edi", "esp", "ebp", "eip", "eflags", "rflags", "rip", "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rsp", "rbp",
         "ax", "bx", "cx", "dx", "si", "di", "sp", "bp", "ip", "al", "ah", "bl", "bh", "cl", "ch", "dl", "dh", "sil", "dil", "spl", "bpl", "cs", "ds", "es", "fs", "gs", "ss",
         "cr0", "cr2", "cr3", "cr4", "cr8", "dr0", "dr1", "dr2", "dr3", "dr6", "dr7"}
    r |= {"r%d%s" % (i, s) for i in range(8, 32) for s in ("", "b", "w", "d")}
    for v in "xyz": r |= {"%smm%d" % (v, i) for i in range(32)}
    for i in range(8): r |= {"st%d" % i, "mm%d" % i, "k%d" % i}
    return sorted(r)
REGS = _regs()
TYPES = ["byte", "word", "dword", "qword", "tword", "oword", "yword", "zword", "far", "ptr"]
JUMPS = "call ja jae jb jbe jc je jg jge jl jle jmp jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz loop loope loopne loopnz loopz".split()
PSEUDO = "db dd do dq dt dw dy dz equ incbin resb resd reso resq rest resw resy resz times".split()
NRESERVED = set(REGS) | set(TYPES) | set(JUMPS) | set(PSEUDO) | {"seg", "wrt", "rel", "abs", "cw", "sw"} | {"xmm32", "ymm32", "zmm32"}
NOPS = ["?", ":", "+", "-", "~", "!", "|", "&", "^", ">", "<", "/", "*", "=", "==", "!=", "<>", "<=", ">=", "<=>", "<<", ">>", "<<<", ">>>", "||", "&&", "^^", "//"]
class Nasm(Gen):
    exact = frozenset(("operator", "instruction", "operand name", "register", "type", "label", "keyword", "bracket", "comma", "comment", "dollar name", "label use", "macro", "number", "pseudo-instruction"))
    def case(self, w): return w if self.p(.75) else w.upper() if self.p(.6) else w.capitalize()
    def name(self, local=False):
        while True:
            s = self.word(cont=ASCII_CONT + ("?@$." if self.p(.2) else ""), avoid=NRESERVED, uni=False)
            if self.p(.12): s = self.pick(["each", "abx", "bad", "face", "dead", "deadh", "ach", "beh", "ebx1", "fach", "b1", "d", "h", "rax_", "xmm33", "eaxx", "jmpx", "bytes", "segx", "cab", "dab", "add", "e5", "r32", "r7", "xmm32"])
            # an identifier begins with a letter, a point or an underscore; "_" also begins what looks like a digit separator
            if s[0] == "_" and not self.p(1): continue
            if s.lower() in NRESERVED and s.lower() != "xmm32": continue
            return s
    def start_ok(self, s): return s[0] != "_"
    def number(self):
        x = self.r.random(); sep = "_" if self.p(.2) else None
        def dig(ds, first=None):
            s = self.digits(ds, sep=sep)
            return digit_segs((first or "") + s) if not first or s[0] != "_" else digit_segs(first + s)
        if x < .25: return ("number", dig(D))
        if x < .5:
            c, ds = self.pick([("bByY", "01"), ("oOqQ", "01234567"), ("dDtT", D), ("xXhH", HEX)])
            return ("number", [("0" + self.pick(c), "number_decor")] + dig(ds))
        if x < .57: return ("number", [("$", "number_decor")] + dig(HEX, self.pick(D)))
        if x < .8:
            c, ds = self.pick([("bByY", "01"), ("oOqQ", "01234567"), ("dDtT", D), ("xXhH", HEX)])
            h = c == "xXhH"
            seg = dig(ds, self.pick(D)) if h else dig(ds)
            return ("number", seg + [(self.pick(c), "number_decor")])
        if x < .93:
            s = dig(D) + [(".", "number_delim")] + (digit_segs(self.digits(D)) if self.p(.8) else [])
            if self.p(.5): s += [(self.pick(["e", "E", "e+", "E+", "e-", "E-"]), "number_delim"), (self.digits(D, self.r.randint(1, 4)), "number")]
            return ("number", s)
        s = [(self.pick(["0x", "0X", "0h", "0H"]), "number_decor"), (self.digits(HEX), "number")]
        if self.p(.6): s += [(".", "number_delim"), (self.digits(HEX), "number")]
        s += [(self.pick(["p", "P", "p+", "P+", "p-", "P-"]), "number_delim"), (self.digits(D, self.r.randint(1, 4)), "number")]
        return ("number", s)
    def string(self):
        q = self.pick("'\"`"); s = [(q, "string_delim")]
        if q != "`": return ("string", s + [(without(self.text(), q, "\n", "\r"), "string"), (q, "string_delim")])
        for _ in range(self.r.randint(0, 4)):
            if self.p(.5):
                e = self.pick(["'", '"', "`", "\\", "?", "a", "b", "t", "n", "v", "f", "r", "e", "0", "7", "12", "377", "x4", "x41", "u20ac", "U0001f600"])
                s.append(("\\" + e, "string_escape"))
                s.append((" ", "string"))
            else: s.append((without(self.text(), "`", "\\", "\n", "\r", "\v"), "string"))
        return ("string", s + [(q, "string_delim")])
    def operand(self, label):
        x = self.r.random()
        if x < .25: self.role = "name_var"; return [("register", [(self.case(self.pick(REGS)), "name_var")])]
        if x < .45: return [self.number()]
        if x < .53: return [self.string()]
        if x < .72: return [("operand name", [(self.opname(), self.role)])]
        if x < .76: self.role = "name_var"; return [("type", [(self.case(self.pick(TYPES)), "keyword_type")]), ("space", [(" ", None)])] + self.operand(label)
        if x < .80: return [("keyword", [(self.case("seg"), "keyword_op")]), ("space", [(" ", None)]), ("operand name", [(self.opname(), self.role)])]
        if x < .84: return [("operand name", [(self.opname(), self.role)]), ("space", [(" ", None)]), ("keyword", [(self.case("wrt"), "keyword_op")]), ("space", [(" ", None)]), ("operand name", [(self.opname(), self.role)])]
        if x < .88: self.role = "name_var"; return [("dollar name", [("$" + self.word(start="ghijklmnopqrstuvwzGHZ_", uni=False), "name")])]
        if x < .90: self.role = "name_var"; return [("position", [(self.pick(["$", "$$"]), lex.ANY)])]
        o, c, t = self.pick([("[", "]", "symbol_square"), ("(", ")", "symbol_parens"), ("{", "}", "symbol_brace")])
        return [("bracket", [(o, t)])] + self.expr(label) + [("bracket", [(c, t)])]
    def opname(self):
        while True:
            s = self.name()
            if self.start_ok(s): return s
    def expr(self, label):
        out = self.operand(label)
        while self.p(.3):
            if self.p(.1): out += [("space", [(" ", None)]), ("operator", [(self.pick(["%", "%%"]), "symbol_op")]), ("space", [(self.pick([" ", "\t"]), None)])]
            else: out += [("space", [(" ", None)]), ("operator", [(self.pick(NOPS), "symbol_op")]), ("space", [(" ", None)])]
            out += self.operand(label)
        return out
    def line(self):
        out = []
        x = self.r.random()
        self.role = "name_instruction"
        if self.p(.25): out.append(("space", [(self.pick([" ", "    ", "\t"]), None)]))
        if x < .08: out.append(("macro", [("%" + self.pick(["define", "macro", "1", "%label", "{x}", "[y]", "+", "if", "!", "include"]) + without(self.text(), "\n", "\r"), "name_macro")])); return out
        if x < .3:
            l = self.opname() if self.p(.7) else self.pick([".", "..@", "."]) + self.word(uni=False)
            if l[0] == "." and self.p(.3): out.append(("label", [(l, "name_label_decl")]))
            else: out.append(("label", [(l + ":", "name_label_decl")]))
            if self.p(.3): return self.tail(out)
            out.append(("space", [(self.pick([" ", "\t"]), None)]))
        if x < .92:
            y = self.r.random()
            if y < .55:
                out.append(("instruction", [(self.opname(), "name_instruction")])); self.role = "name_var"
            elif y < .75:
                out.append(("instruction", [(self.case(self.pick(JUMPS)), "name_instruction")])); self.role = "name_label"
                if self.p(.3):
                    out += [("space", [(" ", None)]), ("label use", [(self.pick([".", ".", "..@"]) + self.word(uni=False), "name_label")])]
                    return self.tail(out)
            else: out.append(("pseudo-instruction", [(self.case(self.pick(PSEUDO)), ("name_instruction", "name_instruction_pseudo"))])); self.role = "name_var"
            n = self.pick([0, 1, 2, 3])
            for i in range(n):
                if i: out.append(("comma", [(",", "symbol_punc")]))
                if i == 0 or self.p(.5): out.append(("space", [(self.pick([" ", "\t"]), None)]))
                out += self.expr(self.role == "name_label")
        return self.tail(out)
    def tail(self, out):
        if self.p(.25): out += [("space", [(self.pick(["", " ", "\t"]), None)]), ("comment", [(";", "comment_delim"), (without(self.text(), "\n", "\r"), "comment")])]
        return out
    def doc(self):
        d = []; nl = self.pick(["\n", "\n", "\r\n"])
        for _ in range(self.pick([1, 2, 5, 12, 30])):
            d += self.line(); d.append(("line end", [(nl, None)]))
        if self.p(.2): d.append(("unterminated", [("`", "string_delim"), ("abc", "string")]))
        return lex.Doc(d)
    def rejoin(self, items): return None

# ---------------------------------------------------------------------------------------------- LLVM
LK = {"keyword_type": "bfloat double float fp128 label metadata ppc_fp128 ptr target token void vscale x86_amx x86_fp80".split(),
      "keyword_control": "br call callbr catchpad catchret catchswitch cleanuppad cleanupret indirectbr invoke landingpad resume ret switch unreachable".split(),
      "bool": ["true", "false"], "null": ["none", "null", "poison", "undef"],
      "keyword": "define declare add sub mul icmp fcmp eq ne select alloca load store getelementptr inbounds align nounwind constant global private unnamed_addr source_filename phi to bitcast sext zext uitofp i half attributes comdat any external fastcc nsw nuw volatile atomic seq_cst s u i32x xx brr calls".split()}
LWORDS = {w: t for t, ws in LK.items() for w in ws}
class LLVM(TokenGen):
    exact = frozenset(("keyword", "label", "name", "integer type", "punctuation", "bracket", "block comment", "comment", "number", "vector"))
    def ident(self):
        c, a, b = self.pick([("%", "name_var_delim", "name_var"), ("@", "name_function_delim", "name_function")])
        n = self.digits(D, self.r.randint(1, 4)) if self.p(.3) else self.word(start=ASCII_START + "-$.", cont=ASCII_CONT + "-$.", uni=False)
        return ("name", [(c, a), (n, b)])
    def quoted(self):
        c, a = self.pick([("%", "name_var_delim"), ("@", "name_function_delim")])
        return ("quoted name", [(c, a)] + self.string()[1])
    def keyword(self): w = self.pick(list(LWORDS)); return ("keyword", [(w, LWORDS[w])])
    def unknown(self):
        while True:
            w = self.word(cont=ASCII_CONT + "-", uni=False)
            if w not in LWORDS and w not in ("x", "c") and not (w[0] == "i" and w[1:].isdigit()) and w[:3] not in ("s0x", "u0x"): return ("keyword", [(w, "keyword")])
    def integer_type(self): return ("integer type", [("i" + self.digits(D, self.r.randint(1, 4)), "keyword_type")])
    def label(self):
        while True:
            w = self.word(cont=ASCII_CONT + "-", uni=False) if self.p(.8) else self.pick(list(LWORDS))
            if w[:3] not in ("s0x", "u0x"): return ("label", [(w, "name_label_decl"), (":", "name_label_delim")])
    def number(self):
        x = self.r.random()
        if x < .4: s = [(self.digits(D), "number")]
        elif x < .7: return ("number", [(self.pick(["0x", "0x", "0xK", "0xL", "0xM", "0xR", "s0x", "u0x"]), "number_decor"), (self.digits(HEX), "number")])
        else:
            s = [(self.digits(D), "number"), (".", "number_delim"), (self.digits(D), "number")]
            if self.p(.5): s += [(self.pick(["e", "E", "e+", "E+", "e-", "E-"]), "number_delim"), (self.digits(D, self.r.randint(1, 4)), "number")]
        if self.p(.2): s = [("-", lex.ANY)] + s
        return ("number", s)
    def string(self):
        s = [('"', "string_delim")]
        for _ in range(self.r.randint(0, 4)):
            if self.p(.4): s.append((self.pick(["\\" + self.pick(HEX) + self.pick(HEX), "\\\\"]), "string_escape"))
            else: s.append((without(self.text(), '"', "\\") + self.pick(["", "", "\n"]), "string"))
        return ("string", s + [('"', "string_delim")])
    def cstring(self): return ("character array", [("c", "string_decor")] + self.string()[1])
    def vector(self): return ("vector", [(self.pick("<["), ("symbol_punc", "symbol_square")), (self.digits(D, 1), "number"), (" ", None), ("x", "symbol_punc"), (" ", None), ("i8", "keyword_type"), (self.pick(">]"), ("symbol_punc", "symbol_square"))])
    def punct(self):
        c = self.pick(",:<>=!#*"); return ("punctuation", [(c, "symbol_punc")])
    def bracket(self): c = self.pick("()[]{}"); return ("bracket", [(c, "symbol_parens" if c in "()" else "symbol_square" if c in "[]" else "symbol_brace")])
    def comment(self):
        if self.p(.6):
            return ("comment", [(";", "comment_delim"), (without(self.text(), "\n", "\r"), "comment"), (self.pick(["\n", "\r\n"]), None)])
        return ("block comment", [("/*", "comment_delim"), (without(self.text() + self.pick(["", "*", "/", "\n", ";"]), "*/"), "comment"), ("*/", "comment_delim")])
    def element(self):
        x = self.r.random()
        for p, f in ((.2, self.ident), (.23, self.quoted), (.38, self.keyword), (.42, self.unknown), (.49, self.integer_type), (.53, self.label), (.66, self.number), (.71, self.string), (.74, self.cstring), (.77, self.vector), (.86, self.punct), (.94, self.bracket)):
            if x < p: return f()
        return self.comment()
    def sep(self, a, b):
        ta, tb = self.text_of(a), self.text_of(b)
        closed = ("string", "character array", "quoted name", "vector", "punctuation", "bracket", "label", "comment", "block comment", "space")
        if a[0] == "space" or b[0] == "space" or a[0] == "comment": return ""
        if a[0] == "name" and (tb[0].isalnum() or tb[0] in "-$._"): return " "
        if a[0] in ("keyword", "integer type", "name", "number") and b[0] == "punctuation" and tb == ":": return " "
        if a[0] == "comment" or a[0] in closed: return ""
        if b[0] in ("string", "quoted name", "name", "bracket", "punctuation", "comment", "block comment", "vector"): return ""
        return " "
    def doc(self): return lex.Doc(self.sequence(self.size()))

def c42(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "nasm", corpus.LANG_ID["nasm"], Nasm, 60000 if chk.thorough else 10000)
    lex.check(chk, "llvm", corpus.LANG_ID["llvm"], LLVM, 60000 if chk.thorough else 8000)

# ---------------------------------------------------------------------------------------------- EBNF
EOPS = {",": "symbol_op", "!": "symbol_op", "|": "symbol_op", "*": "symbol_op", "/": "symbol_op", ":": "symbol_op",
        "[": "symbol_square", "]": "symbol_square", "{": "symbol_brace", "}": "symbol_brace", "(": "symbol_parens", ")": "symbol_parens",
        "(/": ("symbol_parens", "symbol_square"), "/)": ("symbol_parens", "symbol_square"), "(:": "symbol_brace", ":)": "symbol_brace"}
class Ebnf(Gen):
    exact = frozenset(("rule name", "reference", "special sequence", "operator", "integer", "comment", "definition", "stray character", "terminal", "terminator"))
    split = staticmethod(munch(list(EOPS) + ["(*", "*)"]))
    def name(self):
        while True:
            s = self.word(start=ASCII_START, cont=ASCII_CONT + ("-" if self.p(.3) else ""), uni=False)
            return s
    def names(self, t, kind):
        out = [(kind, [(self.name(), t)])]
        while self.p(.3): out += self.gap(True) + [(kind, [(self.name(), t)])]
        return out
    def gap(self, need=False):
        x = self.r.random()
        if x < .1: return [("comment", [("(*", "comment_delim"), (without(self.text() + self.pick(["", "*", "\n", ";", "'", "(*", "="]), "*)").rstrip("*"), "comment"), ("*)", "comment_delim")])]
        if need or x < .6: return [("space", [(self.pick([" ", " ", "  ", "\n", "\t", "\r\n  ", "\v"]), None)])]
        return []
    def terminal(self):
        q = self.pick("'\"`")
        return ("terminal", [(q, "string_delim"), (without(self.text() + self.pick(["", "(*", "\n", ";"]), q), "string"), (q, "string_delim")])
    def special(self): return ("special sequence", [("?" + without(self.text() + self.pick(["", "(*", "\n", ";", "'"]), "?") + "?", "name_macro")])
    def primary(self, depth):
        x = self.r.random()
        if x < .4 or depth > 5: return self.names("name_nonterminal", "reference")
        if x < .65: return [self.terminal()]
        if x < .72: return [self.special()]
        if x < .78:
            return [("integer", [(self.digits(D, self.r.randint(1, 4)), "number")])] + self.gap() + [("operator", [("*", "symbol_op")])] + self.gap() + self.primary(depth + 1)
        o, c = self.pick([("(", ")"), ("[", "]"), ("{", "}"), ("(/", "/)"), ("(:", ":)")])
        return [("operator", [(o, EOPS[o])])] + self.gap() + self.expression(depth + 1) + self.gap() + [("operator", [(c, EOPS[c])])]
    def expression(self, depth):
        out = self.primary(depth)
        while self.p(.45):
            if out[-1][0] == "reference" and self.p(.3):
                out += self.gap() + [self.terminal() if self.p(.4) else self.special()]; continue
            if out[-1][0] in ("terminal", "special sequence", "operator") and self.p(.3): # concatenation without a comma
                out += self.gap()
                out += [("integer", [(self.digits(D, self.r.randint(1, 4)), "number")])] + self.gap(True) if self.p(.3) else self.primary(depth + 1)
                if out[-1][0] == "space" and self.p(.5): out += self.primary(depth + 1)
                continue
            o = self.pick([",", "|", "!", "/", ":", "-", ","])
            if o == "-": out += [("space", [(" ", None)]), ("operator", [("-", "symbol_op")]), ("space", [(" ", None)])]
            else: out += self.gap() + [("operator", [(o, "symbol_op")])] + self.gap()
            out += self.primary(depth + 1)
        return out
    def rule(self):
        out = self.names("name_nonterminal_decl", "rule name") + self.gap() + [("definition", [("=", "symbol_punc")])] + self.gap() + self.expression(0) + self.gap() + [("terminator", [(self.pick(";."), "symbol_punc")])]
        return out
    def doc(self):
        d = []
        for _ in range(self.pick([1, 2, 4, 10])):
            d += self.gap() + self.rule()
            if self.p(.05): d += [("space", [(" ", None)]), ("stray character", [(self.pick(list("@#$%^&~\\<>+") + list(UTEXT)), "error")]), ("space", [(" ", None)])]
        # what touches must not join to another operator, and a hyphen touching a name is part of it
        out = []
        for it in d:
            if out:
                a, b = "".join(t for t, _ in out[-1][1]), "".join(t for t, _ in it[1])
                if a[-1:] in "(/:*" and b[:1] in "*/:)" and not it[0] == "comment" and not out[-1][0] in ("comment", "terminal", "special sequence"):
                    if self.split(a + b) != [a, b]: out.append(("space", [(" ", None)]))
            out.append(it)
        return lex.Doc(out)
    def rejoin(self, items): return None

# ---------------------------------------------------------------------------------------------- diff
class Diff(Gen):
    def line(self):
        t = without(self.text(), "\n", "\r")
        x = self.r.randrange(16)
        if x < 3: return ("common", " " + t, "diff_common")
        if x < 5: return ("deletion", "-" + t, "diff_heading" if t.startswith("-- ") else "diff_deletion")
        if x < 7: return ("insertion", "+" + t, "diff_heading" if t.startswith("++ ") else "diff_insertion")
        if x == 7: return ("modification", "!" + t, "diff_modification")
        if x == 8: return ("heading", self.pick(["--- ", "+++ ", "*** "]) + t, "diff_heading")
        if x == 9: return ("hunk", "@@ -%d,%d +%d,%d @@" % tuple(self.r.randint(1, 999) for _ in range(4)) + self.pick(["", " " + t]), "diff_heading_hunk")
        if x == 10: return ("separator", "*" * self.pick([1, 2, 3, 15, 16, 80]), "diff_heading")
        if x == 11: return ("range", self.pick(["*** %d,%d ****", "--- %d,%d ----"]) % (self.r.randint(1, 99), self.r.randint(100, 999)), "diff_heading")
        if x == 12: return ("near miss", self.pick(["---", "--", "---x", "-", "--\t", "--- "]), None)
        if x == 13: return ("near miss", self.pick(["+++", "++", "+++x", "+", "+++ "]), None)
        if x == 14: return ("near miss", self.pick(["***x", "**x", "*x", "*** ", "@", "@@", "@@-", "@x"]), None)
        return ("other", self.pick(["\\ No newline at end of file", "diff --git a/x b/y", "index 12..34", "Only in a: b", "new file mode 100644", "é" + t, "", "#", "<", ">", "=", "x" + t]), "diff_common")
    NEAR = {"---": "diff_deletion", "--": "diff_deletion", "---x": "diff_deletion", "-": "diff_deletion", "--\t": "diff_deletion", "--- ": "diff_heading",
            "+++": "diff_insertion", "++": "diff_insertion", "+++x": "diff_insertion", "+": "diff_insertion", "+++ ": "diff_heading",
            "***x": "diff_common", "**x": "diff_common", "*x": "diff_common", "*** ": "diff_heading", "@": "diff_common", "@@": "diff_common", "@@-": "diff_common", "@x": "diff_common"}
    exact = frozenset(("common", "deletion", "insertion", "modification", "heading", "hunk", "separator", "range", "near miss", "other"))
    def doc(self):
        nl = self.pick(["\n", "\n", "\r\n"]); d = []
        for _ in range(self.pick([1, 3, 10, 40])):
            k, s, t = self.line()
            d += [(k, [(s, t or self.NEAR[s])]), ("line end", [(nl, None)])]
        if self.p(.3): d.pop()
        return lex.Doc(d)
class Plain(Gen):
    def doc(self): return lex.Doc([("text", [(self.text() + self.pick(["", "\n", "\r\n", "\0"]), None)]) for _ in range(self.r.randint(1, 9))])

def c43(chk):
    chk.cov["rule"] = lex.RULE
    lex.check(chk, "ebnf", corpus.LANG_ID["ebnf"], Ebnf, 40000 if chk.thorough else 8000)
    lex.check(chk, "diff", corpus.LANG_ID["diff"], Diff, 30000 if chk.thorough else 5000)
    lex.check(chk, "txt", corpus.LANG_ID["txt"], Plain, 5000 if chk.thorough else 1500)
