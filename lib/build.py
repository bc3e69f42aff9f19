"""Builds /repo's library sources (current working tree) plus a harness.

Content-addressed object cache under /verif/build (git-ignored): an object is
reused only when the source, every header of /repo/source (non Eigen) and the
flags are identical, so a change of the working tree is always seen.
"""
import os, sys, hashlib, subprocess, glob, concurrent.futures as cf, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "source")
BUILD = os.path.join(VERIF, "build")
SLOW = ["Rod", "Time", "Misc", "Line", "Body", "Waves", "State", "MoorDyn2", "Point", "WaveGrid", "SpectrumKin"]

IGN = "[undefined]\nfun:_ZN5Eigen*\nfun:_ZNK5Eigen*\n"
FLAVORS = {
    "plain": ("clang++", ["-O1", "-g0", "-ffp-contract=off"]),
    "asan": ("clang++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                          "-fno-sanitize=float-divide-by-zero,vptr", "-fno-sanitize-recover=undefined",
                          "-fsanitize-ignorelist=@IGN@"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"]),
    "py": ("clang++", ["-O1", "-fPIC", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-shared-libsan",
                        "-fno-sanitize=float-divide-by-zero,vptr", "-fno-sanitize-recover=undefined", "-fsanitize-ignorelist=@IGN@"]),
    "vg": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off"]),
}

def fail(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(3)

def sources():
    s = [f for f in glob.glob(SRC + "/*.cpp")] + [f for f in glob.glob(SRC + "/Waves/*.cpp")]
    for extra in glob.glob(SRC + "/Util/*.cpp"):
        if "VTK" not in os.path.basename(extra): s.append(extra)
    # any further first-level folder with sources, except Eigen
    for d in sorted(os.listdir(SRC)):
        p = os.path.join(SRC, d)
        if os.path.isdir(p) and d not in ("Eigen", "Waves", "Util"):
            s += glob.glob(p + "/**/*.cpp", recursive=True)
    def key(f):
        b = os.path.splitext(os.path.basename(f))[0]
        return (SLOW.index(b) if b in SLOW else 99, f)
    return sorted(s, key=key)

def header_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SRC):
        if "Eigen" in dirs: dirs.remove("Eigen")
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".in", ".hxx", ".inl")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, SRC).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.digest()

def build_py():
    """the extension of the Python wrapper with the library in it, and the sanitizer runtime to preload"""
    so = build("py", os.path.join(REPO, "wrappers", "python", "cmoordyn.cpp"), inc=["-I/usr/include/python3.12"])
    rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip()
    return so, rt

def build_fortran(so):
    """(library with the Fortran module and the program that calls all of it, why it cannot be built)"""
    mod = os.path.join(REPO, "wrappers", "fortran", "MoorDyn.f90"); shim = os.path.join(VERIF, "harness", "fshim.f90")
    h = hashlib.sha256(open(mod, "rb").read() + b"\0" + open(shim, "rb").read() + so.encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "fort", h); lib = os.path.join(d, "libfw.so"); os.makedirs(d, exist_ok=True)
    if os.path.exists(lib): return lib, None
    fl = ["gfortran", "-O2", "-g", "-fPIC", "-w", "-J", d, "-I", d]
    def go(*a): return subprocess.run(fl + list(a), capture_output=True, text=True, cwd=d)
    r = go("-c", mod, "-o", d + "/m.o")
    if r.returncode: raise RuntimeError("the Fortran module does not compile: " + r.stderr[-2000:])
    r = go("-ffree-line-length-none", "-c", shim, "-o", d + "/s.o")
    if r.returncode: return None, " ".join(l.strip() for l in r.stderr.splitlines() if "Error" in l)[:800]
    t = lib + ".%d" % os.getpid(); r = go("-shared", "-Wl,-z,defs", d + "/m.o", d + "/s.o", so, "-o", t)
    if r.returncode: return None, " ".join(l.strip() for l in r.stderr.splitlines() if "undefined" in l or "multiple" in l)[:800] or r.stderr[-800:]
    os.replace(t, lib); return lib, None

def build(flavor="plain", main="mdh.cpp", jobs=None, quiet=True, inc=()):
    cxx, flags = FLAVORS[flavor]
    os.makedirs(BUILD, exist_ok=True)
    cfg = os.path.join(BUILD, "cfg"); os.makedirs(cfg, exist_ok=True)
    def put(p, txt):
        if not os.path.exists(p) or open(p).read() != txt:
            tmp = p + ".%d" % os.getpid(); open(tmp, "w").write(txt); os.replace(tmp, p)
    put(os.path.join(cfg, "Config.h"), "#ifndef MDCFG\n#define MDCFG\n#endif\n")
    put(os.path.join(cfg, "ign.txt"), IGN)
    flags = [f.replace("@IGN@", os.path.join(cfg, "ign.txt")) for f in flags]
    base = ["-std=c++17", "-w", "-DMoorDyn_EXPORTS", "-DMOORDYN_MAJOR_VERSION=2", "-DMOORDYN_MINOR_VERSION=3",
            "-DMOORDYN_PATCH_VERSION=7", "-I" + cfg, "-I" + SRC, "-I" + SRC + "/Eigen"] + list(inc)
    odir = os.path.join(BUILD, flavor); os.makedirs(odir, exist_ok=True)
    hh = header_hash()
    def comp(src):
        data = open(src, "rb").read()
        k = hashlib.sha256(b"|".join([src.encode(), data, hh, " ".join([cxx] + flags + base).encode()])).hexdigest()[:24]
        o = os.path.join(odir, k + ".o")
        if os.path.exists(o): return o, ""
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run([cxx, "-c", src, "-o", tmp] + flags + base, capture_output=True, text=True)
        if r.returncode: return None, r.stderr[-3000:]
        os.replace(tmp, o)
        return o, ""
    srcs = sources()
    allsrc = srcs[:7] + [os.path.join(VERIF, "harness", main)] + srcs[7:]
    with cf.ThreadPoolExecutor(jobs or 8) as ex:
        objs = list(ex.map(comp, allsrc))
    for (o, e), s in zip(objs, allsrc):
        if not o: fail("compilation of %s failed: %s" % (s, e))
    keep = sorted(o for o, _ in objs)
    name = hashlib.sha256("".join(keep).encode()).hexdigest()[:16]
    exe = os.path.join(odir, os.path.splitext(os.path.basename(main))[0] + "_" + name)
    if flavor == "py":
        exe = os.path.join(odir, name, "cmoordyn.so"); os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        ld = [f for f in flags if f.startswith(("-fsanitize=", "-shared-libsan"))] + (["-shared", "-fPIC"] if flavor == "py" else [])
        r = subprocess.run([cxx, "-o", tmp] + [o for o, _ in objs] + ld + ["-lpthread"], capture_output=True, text=True)
        if r.returncode: fail("link failed: " + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe

def prune(max_mb=1500):
    files = [os.path.join(r, f) for r, _, fs in os.walk(BUILD) for f in fs]
    tot = sum(os.path.getsize(f) for f in files)
    for f in sorted(files, key=os.path.getmtime):
        if tot < max_mb * 1e6: break
        tot -= os.path.getsize(f); os.remove(f)

if __name__ == "__main__":
    import time
    t = time.time(); print(build(*(sys.argv[1:] or ["plain"]))); print("%.1fs" % (time.time() - t))
