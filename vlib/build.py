"""Build the CG-3 driver binaries from /repo's working tree.

Content-hash based: an object is reused only if the flags, every header and the
translation unit's own text are byte-identical to those it was built from.
"""
import fcntl, glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CG3_REPO", "/repo")
BUILD = os.environ.get("CG3_VBUILD", os.path.join(VERIF, "build"))

DEFS = ["-DNDEBUG", "-DBOOST_NO_CXX98_FUNCTION_BASE=1", "-DHAS_FS",
        "-DUNISTR_FROM_CHAR_EXPLICIT=explicit", "-DUNISTR_FROM_STRING_EXPLICIT=explicit",
        "-DU_CHARSET_IS_UTF8=1", "-D_POSIX_C_SOURCE=200112"]
VARIANTS = {
    # close to the shipped configuration, minus -O3 compile time
    "plain": (["g++", "-std=c++23", "-O1", "-w", "-g0"], []),
    "asan": (["clang++", "-std=c++23", "-O1", "-w", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=address,undefined",
              # these reports are not about observable memory errors
              "-fno-sanitize=vptr,alignment,function,float-cast-overflow,pointer-overflow,signed-integer-overflow,shift,enum,bool,nonnull-attribute,object-size",
              "-fno-sanitize-recover=undefined", "-DVERIF_ASAN"],
             ["-fsanitize=address,undefined"]),
}
TOOLS = {"main.cpp": "vislcg3", "cg-conv.cpp": "cg_conv", "cg-proc.cpp": "cg_proc",
         "cg-comp.cpp": "cg_comp", "cg-relabel.cpp": "cg_relabel", "cg-mwesplit.cpp": "cg_mwesplit",
         "cg-annotate.cpp": "cg_annotate", "cg-merge-annotations.cpp": "cg_merge_annotations"}
LIBS = ["-licui18n", "-licuio", "-licuuc", "-licudata", "-lsqlite3", "-lpthread"]


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash(dirs):
    h = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".inl", ".ipp", ".tcc")):
                    p = os.path.join(root, f)
                    h.append(os.path.relpath(p, d))
                    h.append(_read(p))
    return _sha(*h)


def _prune(d, keep, maxn):
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    fs = [f for f in fs if f not in keep]
    fs.sort(key=lambda f: os.stat(f).st_mtime)
    for f in fs[:max(0, len(fs) - maxn)]:
        try:
            os.unlink(f)
        except OSError:
            pass


def build(variant="plain", log=sys.stderr):
    """Returns the path of the driver binary for the current tree."""
    os.makedirs(os.path.join(BUILD, variant, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, log)
    finally:
        lock.close()


def _build(variant, log):
    t0 = time.time()
    src = os.path.join(REPO, "src")
    inc = ["-I" + os.path.join(REPO, "include/posix"), "-I" + os.path.join(REPO, "include"), "-I" + src]
    comp, link = VARIANTS[variant]
    hh = _headers_hash([os.path.join(REPO, "include"), src])
    # .cpp files that are #included by others take part in the header hash too
    units = []
    import re
    named = set(re.findall(r"[\w./-]+\.cpp", _read(os.path.join(src, "CMakeLists.txt")).decode()))
    for p in sorted(glob.glob(os.path.join(src, "*.cpp"))):
        b = os.path.basename(p)
        if b not in named:
            continue  # not part of the shipped build
        extra = []
        if b in TOOLS:
            t = TOOLS[b]
            extra = ["-DendProgram=%s_endProgram" % t]
        units.append((p, extra))
    units.append((os.path.join(REPO, "include/posix/popen_plus.cpp"), []))
    for p in sorted(glob.glob(os.path.join(VERIF, "driver", "*.cpp"))):
        units.append((p, ["-I" + os.path.join(VERIF, "driver")]))
    dh = _headers_hash([os.path.join(VERIF, "driver")])
    objdir = os.path.join(BUILD, variant, "obj")
    jobs, objs = [], []
    for p, extra in units:
        txt = _read(p)
        cmd = comp + DEFS + extra + inc
        key = _sha(" ".join(cmd) + " v3", hh, dh if p.startswith(VERIF) else "", os.path.basename(p), txt)
        o = os.path.join(objdir, os.path.basename(p)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((len(txt), cmd + ["-c", p, "-o", o + ".tmp"], o, TOOLS.get(os.path.basename(p)) if p.startswith(src) else None))
    jobs.sort(key=lambda j: -j[0])
    errs = []

    def run(j):
        r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not r.returncode and j[3]:
            # rename after compiling: only a function called main may end without a return
            r = subprocess.run(["llvm-objcopy" if comp[0].startswith("clang") else "objcopy", "--redefine-sym", "main=%s_main" % j[3], j[2] + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            errs.append(" ".join(j[1]) + "\n" + r.stdout.decode("utf8", "replace"))
        else:
            os.rename(j[2] + ".tmp", j[2])
    if jobs:
        print("[build] %s: compiling %d of %d units" % (variant, len(jobs), len(units)), file=log, flush=True)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs))
    if errs:
        raise RuntimeError("build failed:\n" + "\n".join(errs)[:8000])
    exe = os.path.join(BUILD, variant, "driver-" + _sha(*objs)[:16])
    if not os.path.exists(exe):
        r = subprocess.run([comp[0]] + link + objs + LIBS + ["-o", exe + ".tmp"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("link failed:\n" + r.stdout.decode("utf8", "replace")[:8000])
        os.rename(exe + ".tmp", exe)
    for f in glob.glob(os.path.join(BUILD, variant, "driver-*")):
        if f != exe and time.time() - os.stat(f).st_mtime > 3600:
            os.unlink(f)
    _prune(objdir, set(objs), 300)
    print("[build] %s ready in %.1fs" % (variant, time.time() - t0), file=log, flush=True)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
