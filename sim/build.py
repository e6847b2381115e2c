#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree (or $VERIF_REPO) into /verif/build."""
import os, sys, subprocess, hashlib, glob, json, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
CC, CXX = "clang", "clang++"
MODS = ["cast", "libpthread", "ptrdata", "libm", "libc", "arithmetic", "tm", "txlib"]

def incs():
    r = ["-I" + HERE + "/conf"]
    for d in ["include"] + ["modules/%s/include" % m for m in MODS]:
        r += ["-I" + HERE + "/conf/" + d, "-I" + REPO + "/" + d]
    return r

def iquotes():
    r = ["-I" + HERE + "/conf"]
    for d in ["include"] + ["modules/%s/include" % m for m in MODS]:
        r += ["-iquote", HERE + "/conf/" + d, "-iquote", REPO + "/" + d]
    return r

PFLAGS = ["-g", "-O1", "-std=c17", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-include", "config.h", "-fno-pic", "-fno-pie",
          "-fvisibility=hidden", "-fno-common", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-stack-protector",
          "-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0",
          "-fno-omit-frame-pointer", "-Wno-everything", "-pthread"]
HFLAGS = ["-g", "-O1", "-std=gnu++20", "-D_GNU_SOURCE", "-D_Bool=bool", "-fno-pic", "-fno-pie", "-fno-exceptions",
          "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-Wall", "-Wno-unused-function", "-Wno-c99-extensions",
          "-Wno-vla-cxx-extension", "-include", "config.h"]
HCFLAGS = ["-g", "-O1", "-std=gnu17", "-D_GNU_SOURCE", "-fno-pic", "-fno-pie", "-U_FORTIFY_SOURCE",
           "-fno-stack-protector", "-include", "config.h", "-Wno-everything"]

def srcroot(s):
    rel = os.path.relpath(s, REPO).split("/")
    return REPO + "/" + ("src" if rel[0] == "src" else "/".join(rel[:3]))

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout)
        raise SystemExit(2)
    return p.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()

def build(verbose=False):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    for m in MODS:
        srcs += sorted(glob.glob(REPO + "/modules/%s/src/**/*.c" % m, recursive=True))
    hdrs = []
    for d in ["src", "include"] + ["modules/%s/%s" % (m, k) for m in MODS for k in ("src", "include")]:
        hdrs += glob.glob(REPO + "/" + d + "/**/*.h", recursive=True)
    hdrs += glob.glob(HERE + "/conf/**/*.h", recursive=True)
    hd = digest(hdrs, " ".join(PFLAGS))
    objs, jobs = [], []
    stamps = {}
    sf = OUT + "/stamps.json"
    try:
        stamps = json.load(open(sf))
    except Exception:
        pass
    new = {}
    for s in srcs:
        o = OUT + "/p_" + os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o"
        d = digest([s], hd)
        objs.append(o)
        new[o] = d
        if stamps.get(o) != d or not os.path.exists(o):
            # picotm's own include order: the module's headers before everything else
            jobs.append([CC, "-c", s, "-o", o] + PFLAGS + ["-iquote", os.path.dirname(s), "-iquote", srcroot(s)] + iquotes())
    hs = sorted(glob.glob(HERE + "/src/*.cpp")) + sorted(glob.glob(HERE + "/src/*.c"))
    hh = digest(hdrs + glob.glob(HERE + "/src/*.h"), " ".join(HFLAGS + HCFLAGS))
    hobjs = []
    for s in hs:
        o = OUT + "/h_" + os.path.basename(s).replace(".", "_") + ".o"
        d = digest([s], hh)
        hobjs.append(o)
        new[o] = d
        if stamps.get(o) != d or not os.path.exists(o):
            if s.endswith(".cpp"):
                jobs.append([CXX, "-c", s, "-o", o] + HFLAGS + ["-I" + HERE + "/src"] + iquotes())
            else:
                jobs.append([CC, "-c", s, "-o", o] + HCFLAGS + ["-I" + HERE + "/src"] + iquotes())
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(sh, jobs))
    # combine picotm, redirect its references to the C library, give its data a section of its own
    comb = OUT + "/picotm_all.o"
    if jobs or new != stamps or not os.path.exists(OUT + "/picotm_sim.o") or not os.path.exists(OUT + "/sim"):
        sh(["ld", "-r", "-o", comb] + objs)
        syms = HERE + "/redirect.syms"
        und = set(l.split()[-1] for l in sh(["nm", "-u", comb]).splitlines())
        with open(OUT + "/redirect.map", "w") as f:
            for l in open(syms):
                for n in l.split():
                    if n in und:
                        f.write("%s sim_%s\n" % (n, n))
        sh(["objcopy", "--redefine-syms=" + OUT + "/redirect.map", "--rename-section", ".data=pt_data",
            "--rename-section", ".bss=pt_bss,alloc,load,data,contents", comb, OUT + "/picotm_sim.o"])
        sh([CXX, "-no-pie", "-o", OUT + "/sim.new", OUT + "/picotm_sim.o"] + hobjs +
           ["-static-libgcc", "-static-libstdc++", "-lm", "-pthread"])
        os.replace(OUT + "/sim.new", OUT + "/sim")
    json.dump(new, open(sf, "w"))
    if verbose:
        print("built %d of %d objects in %.1f s" % (len(jobs), len(objs) + len(hobjs), time.time() - t0))
    return OUT + "/sim"

if __name__ == "__main__":
    build(True)
