#!/usr/bin/env python3
"""Builds the library under test from /repo's *current working tree*, in a
named variant, plus the harness program of one check.  Objects are cached under
/verif/build keyed by a hash of compiler flags, the source text and every
header of the library, so an edit anywhere in /repo is always seen.

Sources are discovered the same way CMakeLists.txt discovers them (globs)."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FNFT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["include", "include/private", "include/3rd_party/kiss_fft", "include/3rd_party/eiscor"]

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # what ships (CMake's own optimisation level)
    "rel":  dict(c=["-O3", "-g1"], f=["-O3", "-g1"], ld=[], hc=["-O2", "-g1"]),
    # address+UB sanitised
    "asan": dict(c=["-O1", "-g1"] + SAN, f=["-O1", "-g1"] + ["-fsanitize=address", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined,float-cast-overflow"], hc=["-O1", "-g1"] + SAN),
    # every memory access of the library calls our own scheduler runtime
    "sched": dict(c=["-O1", "-g1", "-fsanitize=thread"], f=["-O1", "-g1", "-fsanitize=thread"],
                  ld=["-pthread"], hc=["-O2", "-g1"]),
    # the genuine ThreadSanitizer, free running
    "tsan": dict(c=["-O1", "-g1", "-fsanitize=thread"], f=["-O1", "-g1", "-fsanitize=thread"],
                 ld=["-fsanitize=thread", "-pthread"], hc=["-O1", "-g1", "-fsanitize=thread"]),
}

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace") + "\n")
        raise RuntimeError("build failed: " + cmd[-1])
    return r.stdout.decode(errors="replace")

def config_header():
    """Our own fnft_config.h, generated from the repository's template, so that
    the check does not depend on /repo having been configured."""
    d = os.path.join(BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "include/fnft_config.h.in")).read()
    ver = {}
    import re
    for l in open(os.path.join(REPO, "CMakeLists.txt")):
        m = re.match(r'\s*set\s*\(\s*(FNFT_VERSION_\w+)\s+"?([^")]*)"?\s*\)', l)
        if m: ver[m.group(1)] = m.group(2)
    out = []
    on = {"HAVE___THREAD": "1", "HAVE_PRAGMA_GCC_OPTIMIZE_OFAST": "1"}
    for l in src.splitlines():
        m = re.match(r'#cmakedefine\s+(\w+)', l)
        if m:
            l = "#define %s %s" % (m.group(1), on[m.group(1)]) if m.group(1) in on else "/* #undef %s */" % m.group(1)
        l = re.sub(r'@(\w+)@', lambda m: ver.get(m.group(1), ""), l)
        out.append(l)
    txt = "\n".join(out) + "\n"
    p = os.path.join(d, "fnft_config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return d

def sources():
    g = lambda p: sorted(glob.glob(os.path.join(REPO, p)))
    return (g("src/*.c") + g("src/private/*.c") + g("src/3rd_party/kiss_fft/*.c"),
            g("src/3rd_party/eiscor/*.f90"))

def headers_hash(cfg):
    h = hashlib.sha256()
    fs = []
    for r, ds, f in os.walk(os.path.join(REPO, "include")):
        ds.sort()
        fs += [os.path.join(r, x) for x in sorted(f) if x != "fnft_config.h"]
    fs += sorted(glob.glob(os.path.join(REPO, "src/private/*.inc"))) + sorted(glob.glob(os.path.join(REPO, "src/3rd_party/*/*.h")))
    fs.append(os.path.join(cfg, "fnft_config.h"))
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def incflags(cfg):
    # quote+angle search: our generated config first
    return ["-I" + cfg] + ["-I" + os.path.join(REPO, i) for i in INC]

def library(variant):
    """Returns path of a static archive of the library."""
    v = VARIANTS[variant]
    cfg = config_header()
    hh = headers_hash(cfg)
    odir = os.path.join(BUILD, variant)
    os.makedirs(odir, exist_ok=True)
    csrc, fsrc = sources()
    jobs, objs = [], []
    # include/fnft_config.h of the tree (if configured) would shadow ours for
    # "quoted" includes from include/, its content is the same template.
    for s in csrc + fsrc:
        isf = s.endswith(".f90")
        flags = (v["f"] + ["-cpp", "-ffree-line-length-none"]) if isf else (v["c"] + ["-std=c99", "-w"])
        h = hashlib.sha256(("\0".join(flags) + s).encode() + open(s, "rb").read() + (b"" if isf else hh.encode())).hexdigest()[:24]
        o = os.path.join(odir, os.path.basename(s) + "." + h + ".o")
        objs.append(o)
        if not os.path.exists(o):
            cc = "gfortran" if isf else "gcc"
            tmp = o + ".%d.tmp" % os.getpid()
            inc = incflags(cfg)
            if isf: inc = ["-I" + os.path.join(REPO, "include/3rd_party/eiscor")]
            jobs.append((([cc] + flags + inc + ["-c", s, "-o", tmp]), tmp, o))
    def run(j):
        sh(j[0]); os.replace(j[1], j[2])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    lib = os.path.join(odir, "libfnft-%s.a" % key)
    if not os.path.exists(lib):
        tmp = lib + ".%d.tmp" % os.getpid()
        sh(["ar", "rcs", tmp] + objs)
        os.replace(tmp, lib)
    return lib

WRAP = ["malloc", "calloc", "realloc", "free"]

def program(name, variant, srcs, cflags=(), wrap=False, cxx=False, ldflags=()):
    v = VARIANTS[variant]
    lib = library(variant)
    cfg = config_header()
    mcdir = os.path.join(VERIF, "mc")
    h = hashlib.sha256((lib + repr((srcs, cflags, wrap, v, ldflags))).encode())
    for s in sorted(glob.glob(mcdir + "/*.[ch]")):
        h.update(s.encode()); h.update(open(s, "rb").read())
    exe = os.path.join(BUILD, variant, "%s-%s" % (name, h.hexdigest()[:16]))
    if os.path.exists(exe): return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["gcc", "-std=gnu11", "-Wall", "-Wno-unused-function", "-Wno-unknown-pragmas", "-Werror=incompatible-pointer-types", "-DMC_VARIANT_" + variant.upper()] + list(v["hc"]) + list(cflags) + incflags(cfg) + ["-I" + mcdir]
    if wrap: cmd += ["-DMC_WRAP"] + ["-Wl,--wrap=" + w for w in WRAP]
    cmd += [os.path.join(mcdir, s) for s in srcs] + [lib] + list(v["ld"]) + list(ldflags) + ["-lgfortran", "-lquadmath", "-lm", "-lpthread", "-o", tmp]
    sh(cmd)
    os.replace(tmp, exe)
    return exe

if __name__ == "__main__":
    import time
    for var in sys.argv[1:]:
        t = time.time(); print(var, library(var), round(time.time() - t, 1))
