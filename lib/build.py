"""Builds /repo's working tree in several instrumented variants, offline, outside /repo.

Objects are cached under /verif/build by the content of every header and source that can reach
them, so that a second check in the same sandbox reuses them and any edit rebuilds them."""
import hashlib, os, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

CLANG = ["clang++", "-std=c++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined",
         "-fsized-deallocation", "-w"]
GCC = ["g++", "-std=c++23", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=function,vptr",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-g1"]

VARIANTS = {
    # name: (compiler+flags for library and harness, link flags)
    "asan": (CLANG + SAN + ["-O1"], ["-fsanitize=address,undefined"]),
    "asan_fz": (CLANG + SAN + ["-O1", "-fsanitize=fuzzer-no-link"], ["-fsanitize=address,undefined,fuzzer"]),
    "asan_ndebug_fz": (CLANG + SAN + ["-O1", "-DNDEBUG", "-fsanitize=fuzzer-no-link"], ["-fsanitize=address,undefined,fuzzer"]),
    "asan_ndebug": (CLANG + SAN + ["-O1", "-DNDEBUG"], ["-fsanitize=address,undefined"]),
    "tsan": (CLANG + ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["-fsanitize=thread"]),
    "fz": (CLANG + ["-O1", "-g1", "-fsanitize=fuzzer-no-link", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=fuzzer"]),
    "steps": (CLANG + ["-O1", "-g1", "-fsanitize-coverage=trace-pc-guard"], []),
    "plain": (GCC + ["-O1", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS"], []),
    "ndebug": (GCC + ["-O2", "-g1", "-fPIC", "-DNDEBUG"], []),
}

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "harness")):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(_read(p))
        _hdr = h.hexdigest()
    return _hdr

def library_sources():
    base = os.path.join(REPO, "src/main/cpp")
    res = sorted(glob.glob(base + "/lang/*.cpp"))
    res += [p for p in sorted(glob.glob(base + "/*.cpp"))
            if os.path.basename(p) not in ("main.cpp", "wasm.cpp")]
    return res

def _compile(flags, src):
    key = _sha(" ".join(flags), src, _read(src), headers_hash())
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
                                "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return out, "%s\n%s" % (" ".join(r.args), r.stderr[-4000:])
    os.replace(tmp, out)
    return out, None

def objects(jobs):
    """jobs: list of (flags, src)."""
    # big files first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {i: ex.submit(_compile, *jobs[i]) for i in order}
        for i in order:
            o, err = futs[i].result()
            if err:
                raise BuildError(err)
            res[i] = o
    return res

def _variant(name, extra):
    flags, link = VARIANTS[name]
    return list(flags) + list(extra), list(link)

def program(variant, harness, extra=(), libs=(), with_library=True, extra_sources=(), name=None, drop=()):
    """Links /verif/harness/<harness>.cpp with the library; returns the executable's path."""
    flags, link = _variant(variant, extra)
    srcs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    srcs += list(extra_sources)
    if with_library:
        srcs += [s for s in library_sources() if os.path.basename(s) not in drop]
    objs = objects([(flags, s) for s in srcs])
    key = _sha(*objs, " ".join(link), " ".join(libs))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name or os.path.basename(srcs[0]).split(".")[0], variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([flags[0]] + objs + link + list(libs) + ["-pthread", "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link %s\n%s" % (exe, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

def shared(variant, harness, extra=(), drop=()):
    """A shared library with the C++ shims in harness/<harness> and the whole library (for ctypes)."""
    flags, link = _variant(variant, extra)
    srcs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    srcs += library_sources()
    objs = objects([(flags, s) for s in srcs])
    key = _sha(*objs)
    so = os.path.join(BUILD, "bin", "%s-%s-%s.so" % (os.path.basename(srcs[0]).split(".")[0], variant, key))
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run([flags[0], "-shared"] + objs + link + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link %s\n%s" % (so, r.stderr[-4000:]))
        os.replace(tmp, so)
    return so

if __name__ == "__main__":
    import time
    t = time.time()
    for v in sys.argv[1:]:
        print(program(v, "fz.cpp"), round(time.time() - t, 1))
