#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree.  Objects are cached by the hash of their inputs.
usage: build.py [asan|fast|o0]   -> prints the path of the binary"""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
CC, CXX = "/usr/bin/gcc", "/usr/bin/g++"
WRAP = ["fopen","fopen64","open","open64","read","write","close","lseek","lseek64","realpath","getenv","exit",
        "gettimeofday","time","clock_gettime","buzzheap_gc",
        "malloc","calloc","realloc","free","strdup","asprintf","vasprintf","getline","getdelim","__getdelim"]
MAINS = {"buzzasm_main.c":"bzzasm_main","buzzdeasm_main.c":"bzzdeasm_main","buzzparse.c":"bzzparse_main","buzzrun.c":"bzzrun_main"}

def sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def read(f):
    with open(f, "rb") as x: return x.read()

def build(flavour="asan"):
    src = os.path.join(REPO, "src/buzz")
    os.makedirs(B + "/obj", exist_ok=True); os.makedirs(B + "/gen/buzz", exist_ok=True)
    cfg = read(os.path.join(src, "config.h.in")).decode() if os.path.exists(os.path.join(src, "config.h.in")) else ""
    cfg = re.sub(r"#cmakedefine\s+(\w+).*", r"/* \1 */", cfg); cfg = re.sub(r"@\w+@", "0", cfg)
    # written only when it changes
    gen = B + "/gen/buzz/config.h"
    if not os.path.exists(gen) or read(gen).decode() != cfg:
        t = gen + ".%d" % os.getpid()
        with open(t, "w") as f: f.write(cfg)
        os.replace(t, gen)
    # the libraries in Buzz that are shipped with it
    libs = "".join('static const char* LIB_%s = R"BZZLIB(%s)BZZLIB";\n' % (os.path.basename(f)[:-4], read(f).decode(errors="replace")) for f in sorted(glob.glob(os.path.join(REPO, "src/include/*.bzz"))))
    bz = os.path.join(REPO, "src/utility/bzzc.in")
    libs += 'static const char* SCRIPT_bzzc = R"BZZLIB(%s)BZZLIB";\n' % (re.sub(r"@\w+@", "0", read(bz).decode(errors="replace")) if os.path.exists(bz) else "")
    lib = B + "/gen/bzzlibs.hpp"
    if not os.path.exists(lib) or read(lib).decode() != libs:
        t = lib + ".%d" % os.getpid()
        with open(t, "w") as f: f.write(libs)
        os.replace(t, lib)
    hdrs = b"".join(read(f) for f in sorted(glob.glob(src + "/*.h"))) + cfg.encode()
    simh = b"".join(read(f) for f in sorted(glob.glob(VERIF + "/sim/*.hpp"))) + libs.encode()
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + B + "/gen"]
    # asan: memory errors stop the run at once; fast: about five times the number of runs
    # o0: nothing is kept in registers across basic blocks, so that a switch there meets every variable in memory
    fl = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"] if flavour == "asan" else ["-O2", "-g1"]
    c0 = ["-O0", "-g1"] if flavour == "o0" else fl
    cflags = c0 + ["-std=gnu99", "-w", "-fsanitize-coverage=trace-pc", "-fexceptions", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-pie", "-D_GNU_SOURCE", "-DBUZZ_SIM=1"] + inc
    xflags = fl + ["-std=gnu++17", "-Wall", "-Wno-unused", "-U_FORTIFY_SOURCE", "-fno-pie"] + inc
    jobs = []
    for f in sorted(glob.glob(src + "/*.c")):
        b = os.path.basename(f); fl = list(cflags)
        if b in MAINS:
            fl += ["-Dmain=" + MAINS[b]]
        jobs.append((CC, f, fl, h(read(f), hdrs, " ".join(fl))))
    for f in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        jobs.append((CXX, f, xflags, h(read(f), hdrs, simh, " ".join(xflags))))
    objs = [B + "/obj/" + os.path.basename(j[1]) + "." + j[3] + ".o" for j in jobs]
    binname = B + "/sim." + flavour + "." + h(" ".join(objs), " ".join(WRAP))
    if os.path.exists(binname): return binname
    def one(i):
        cc, f, fl, key = jobs[i]
        if os.path.exists(objs[i]): return 0, ""
        t = objs[i] + ".%d.tmp" % os.getpid()
        r, o = sh([cc] + fl + ["-c", f, "-o", t])
        b = os.path.basename(f)
        # the tools are separate programs: only their entry points are visible outside
        if r == 0 and b in MAINS: r, o = sh(["objcopy", "--keep-global-symbol=" + MAINS[b], t])
        if r == 0: os.replace(t, objs[i])
        return r, o
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r, o in ex.map(one, range(len(jobs))):
            if r != 0: raise SystemExit("build failed:\n" + o)
    t = binname + ".%d.tmp" % os.getpid()
    r, o = sh([CXX] + (["-fsanitize=address"] if flavour == "asan" else []) + ["-no-pie", "-o", t] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAP), "-lm"])
    if r != 0: raise SystemExit("link failed:\n" + o)
    os.replace(t, binname)
    # prune old binaries and objects
    def prune(pat, keep, used):
        fs = sorted(glob.glob(pat), key=os.path.getmtime)
        for f in fs[:-keep] if len(fs) > keep else []:
            if f not in used:
                try: os.remove(f)
                except OSError: pass
    prune(B + "/sim." + flavour + ".*", 3, {binname}); prune(B + "/obj/*.o", 400, set(objs))
    return binname

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "asan"))
