"""Seeds, dictionaries and the committed corpora for the fuzzing workloads."""
import glob, lzma, os, re, struct
from build import REPO, VERIF

LANGS = {1: "cowel", 2: "cpp", 3: "lua", 4: "html", 5: "css", 6: "c", 7: "js", 8: "bash", 9: "diff",
         10: "json", 11: "jsonc", 12: "xml", 13: "txt", 14: "tex", 15: "latex", 16: "nasm", 17: "ebnf",
         18: "python", 19: "kotlin", 20: "ts", 21: "rust", 22: "llvm", 23: "markdown", 24: "java", 25: "yaml"}
LANG_ID = {v: k for k, v in LANGS.items()}
EXT = dict(bash=8, sh=8, c=6, cow=1, cpp=2, css=5, diff=9, ebnf=17, html=4, java=24, js=7, jsx=7, json=10,
           jsonc=11, kt=19, latex=15, ll=22, lua=3, md=23, asm=16, py=18, rs=21, tex=14, txt=13, ts=20,
           tsx=20, xml=12, mml=12, yaml=25)
SOURCE_OF = {1: ["cowel"], 2: ["cpp"], 3: ["lua"], 4: ["html"], 5: ["css"], 6: ["cpp"], 7: ["js"], 8: ["bash"],
             9: ["diff"], 10: ["json"], 11: ["json"], 12: ["xml"], 13: [], 14: ["tex"], 15: ["tex"], 16: ["nasm"],
             17: ["ebnf"], 18: ["python"], 19: ["kotlin"], 20: ["js"], 21: ["rust"], 22: ["llvm"],
             23: ["markdown", "html"], 24: ["java"], 25: ["yaml"]}

def repo_seeds(lang, max_len=4096):
    """Sources of the repository's own fixtures (the inputs only, never the expected outputs)."""
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "test/highlight/**/*"), recursive=True)):
        if not os.path.isfile(p):
            continue
        ext = p.rsplit(".", 1)[-1]
        if EXT.get(ext) != lang and not (lang == 20 and EXT.get(ext) == 7) and not (lang == 6 and EXT.get(ext) == 2):
            continue
        if ext == "html" and p.count(".") > 1:   # expected output x.ext.html
            continue
        b = open(p, "rb").read()
        if len(b) <= max_len:
            out.append(b)
    return out

def pack_path(lang):
    return os.path.join(VERIF, "corpus", LANGS[lang] + ".xz")

def load_pack(lang):
    p = pack_path(lang)
    if not os.path.exists(p):
        return []
    b = lzma.decompress(open(p, "rb").read())
    out, i = [], 0
    while i < len(b):
        (n,) = struct.unpack_from("<H", b, i)
        out.append(b[i + 2:i + 2 + n]); i += 2 + n
    return out

def save_pack(lang, items):
    os.makedirs(os.path.dirname(pack_path(lang)), exist_ok=True)
    raw = b"".join(struct.pack("<H", len(x)) + x for x in sorted(set(items), key=lambda x: (len(x), x)) if len(x) < 65536)
    open(pack_path(lang), "wb").write(lzma.compress(raw, preset=9 | lzma.PRESET_EXTREME))

def _unescape(lit):
    def f(m):
        s = m.group(1)
        t = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "f": "\f", "0": "\0", "\\": "\\", '"': '"', "'": "'"}
        if s[0] == "x":
            return chr(int(s[1:], 16))
        return t.get(s, s)
    return re.sub(r"\\(x[0-9a-fA-F]{1,2}|.)", f, lit)

def dictionary(lang):
    """String and character literals in the language's own sources: inputs worth trying."""
    words = set()
    for n in SOURCE_OF[lang]:
        for p in (REPO + "/src/main/cpp/lang/%s.cpp" % n, REPO + "/include/ulight/impl/lang/%s.hpp" % n):
            if not os.path.exists(p):
                continue
            t = open(p, encoding="utf-8", errors="replace").read()
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                w = _unescape(m.group(1))
                if 0 < len(w) <= 24:
                    words.add(w)
            for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", t):
                w = _unescape(m.group(1))
                if len(w) == 1:
                    words.add(w)
    return [w.encode("utf-8", "replace") for w in sorted(words)]

def write_dict(lang, path):
    with open(path, "wb") as f:
        for w in dictionary(lang):
            f.write(struct.pack("<H", len(w)) + w)
