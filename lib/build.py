"""Builds instrumented interpreters from /repo's current working tree.

build(variant) -> path of the executable.  Objects are cached under /verif/build by content hash, so only a fresh
sandbox or a changed tree costs a rebuild.  Nothing is written to /repo.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++2a", "-g1", "-w", "-fwrapv", "-fno-omit-frame-pointer", "-DFUNGE_MONITOR", "-D_GLIBCXX_ASSERTIONS",
          "-pthread"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow,alignment,shift-base",
             "-fno-sanitize-recover=all", "-DVARIANT_ASAN"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVARIANT_TSAN"],
    "plain": ["-O1", "-DVARIANT_PLAIN"],
}
PCH = """
#include <algorithm>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
"""

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:32]

def _read(p):
    with open(p, "rb") as f: return f.read()

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def sources():
    """(path to compile, logical name, text) of every source the project's own build compiles."""
    out = []
    have_bigint = os.path.isfile(os.path.join(REPO, "third_party/bigint/src/bigint.cpp"))
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".cpp"): continue
            p = os.path.join(root, f)
            if not have_bigint and f == "FingerprintLONG.cpp": continue
            text = _read(p)
            if not have_bigint and f == "FingerprintStrategy.cpp":
                text = b'#line 1 "%s"\n' % p.encode() + re.sub(rb"(?m)^.*FingerprintLONG.*$", b"", text)
            out.append((p, os.path.relpath(p, REPO), text))
    if have_bigint:
        p = os.path.join(REPO, "third_party/bigint/src/bigint.cpp")
        out.append((p, "third_party/bigint.cpp", _read(p)))
    return out

def include_dirs():
    inc = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        if os.path.basename(root) == "include": inc.append(root)
    b = os.path.join(REPO, "third_party/bigint/include")
    if os.path.isdir(b): inc.append(b)
    return sorted(inc)

def tree_hash():
    parts = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f); parts += [os.path.relpath(p, REPO), _read(p)]
    return _sha(*parts)

def build(variant, mains=("monitor.cpp",), exe="funge", real_main=True):
    """Build interpreter sources + the harness files `mains`; returns the executable's path."""
    flags = COMMON + VARIANTS[variant]
    if os.environ.get("VERIF_COV"): flags = flags + ["--coverage", "-O0"]
    bdir = os.path.join(BUILD, variant)
    cache = os.path.join(bdir, "cache")
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, flags, bdir, cache, mains, exe)

def _build(variant, flags, bdir, cache, mains, exe):
    inc = include_dirs()
    hdrs = []
    for d in inc + [HARNESS]:
        for root, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f); hdrs += [p, _read(p)]
    base = _sha("v3", *flags, *inc, *hdrs)
    # precompiled standard headers (an optimisation only)
    pchdir = os.path.join(bdir, "pch-" + _sha("p2", PCH, *flags)); pch = os.path.join(pchdir, "std.h")
    if not os.path.exists(pch + ".gch"):
        os.makedirs(pchdir, exist_ok=True)
        with open(pch, "w") as f: f.write(PCH)
        _run(["g++"] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch.tmp"])
        os.rename(pch + ".gch.tmp", pch + ".gch")
    jobs, objs = [], []
    iflags = [x for d in inc for x in ("-I", d)] + ["-I", HARNESS]
    for path, name, text in sources():
        extra = ["-Dmain=funge_real_main"] if name.endswith("/Funge.cpp") else []
        obj = os.path.join(cache, _sha(base, name, text, *extra) + ".o")
        objs.append(obj)
        if not os.path.exists(obj): jobs.append((name, text, obj, extra, os.path.dirname(path)))
    for m in mains:
        p = os.path.join(HARNESS, m); text = _read(p)
        obj = os.path.join(cache, _sha(base, m, text) + ".o")
        objs.append(obj)
        if not os.path.exists(obj): jobs.append((m, text, obj, [], HARNESS))
    def compile_one(j):
        name, text, obj, extra, d = j
        tmp = obj[:-2] + ".cpp"
        with open(tmp, "wb") as f:
            if not text.startswith(b"#line"): f.write(b'#line 1 "%s"\n' % name.encode())
            f.write(text)
        try:
            _run(["g++"] + flags + extra + ["-include", pch] + iflags + ["-iquote", d, "-c", tmp, "-o", obj + ".tmp"])
            os.rename(obj + ".tmp", obj)
        finally:
            if os.path.exists(tmp): os.unlink(tmp)
    jobs.sort(key=lambda j: -len(j[1]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(compile_one, jobs))
    bind = os.path.join(bdir, "bin"); os.makedirs(bind, exist_ok=True)
    out = os.path.join(bind, exe)
    key = _sha(*objs)
    if not (os.path.exists(out) and os.path.exists(out + ".key") and _read(out + ".key").decode() == key):
        _run(["g++"] + flags + objs + ["-ldl", "-rdynamic", "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
        with open(out + ".key", "w") as f: f.write(key)
    # the interpreter looks for fingerprint libraries in ../fing beside its executable
    fing = os.path.join(bdir, "fing")
    os.makedirs(fing, exist_ok=True)
    want = {}
    for d in (os.path.join(REPO, "fing"), os.path.join(HARNESS, "fing")):
        for f in sorted(os.listdir(d)): want.setdefault(f, _read(os.path.join(d, f)))
    for f in os.listdir(fing):
        if f not in want: os.unlink(os.path.join(fing, f))
    for f, text in want.items():
        p = os.path.join(fing, f)
        if not os.path.exists(p) or _read(p) != text:
            with open(p + ".tmp", "wb") as fh: fh.write(text)
            os.rename(p + ".tmp", p)
    live = set(objs)
    olds = sorted(glob.glob(os.path.join(cache, "*.o")), key=os.path.getmtime)
    for o in olds[:-600]:
        if o not in live: os.unlink(o)
    return out

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
