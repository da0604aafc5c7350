#!/usr/bin/env python3
"""Builds the simulator together with the code under test from /repo's working tree.
usage: build.py VARIANT   (p1 p2 p3: lock protocol; srv: p3 plus the network server; srvi: the server built without threads; cli: p3 plus the command line tool)
Prints the path of the resulting binary.  Objects are cached by content."""
import sys, os, hashlib, subprocess, fcntl, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LIB = ["dbmem","dballoc","dbdata","dblog","dbdump","dbhash","dbindex","dbcompare","dbquery","dbutil","dbmpool","dbjson","dbschema","dblock"]
SRV = ["dserve","dserve_util","dserve_net"]
LCC = ["clang","-g","-O1","-w","-fno-pie","-fno-common","-fno-builtin-printf","-fsanitize=thread","-mllvm","-tsan-instrument-func-entry-exit=0","-U_FORTIFY_SOURCE","-fno-stack-protector"]
HCC = ["clang++","-std=c++17","-g","-O2","-w","-fno-pie"]
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout)); sys.exit(2)
    return r.stdout
def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]
def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    proto = {"p1": 1, "p2": 2, "p3": 3, "srv": 3, "srvi": 3, "cli": 3}[variant]; srv = variant in ("srv", "srvi"); cli = variant == "cli"
    inc = os.path.join(BUILD, "inc"); 
    os.makedirs(os.path.join(inc, "x"), exist_ok=True)
    shutil.copy(os.path.join(HERE, "sim", "config.h"), os.path.join(inc, "config.h"))
    for a, b in (("whitedb", "Db"), ("Db", "Db")):
        l = os.path.join(inc, a)
        if os.path.islink(l) and os.readlink(l) != os.path.join(REPO, b): os.unlink(l)
        if not os.path.islink(l): os.symlink(os.path.join(REPO, b), l)
    hdrs = glob.glob(REPO + "/Db/*.h") + glob.glob(REPO + "/json/*.h") + [os.path.join(HERE, "sim", "config.h")]
    shdrs = hdrs + glob.glob(REPO + "/Server/*.h")
    objs = os.path.join(BUILD, "obj"); os.makedirs(objs, exist_ok=True)
    iflags = ["-I" + inc + "/x", "-DLOCK_PROTO=%d" % proto]
    jobs = []
    def job(src, deps, cmd, tag, post=None):
        key = filehash([src] + deps, " ".join(cmd) + (post or ""))
        o = os.path.join(objs, "%s-%s.o" % (tag, key))
        jobs.append((o, cmd + ["-c", src, "-o"])); return o
    libo = []
    # the sources include "../config.h": give them one through the include path
    for f in LIB:
        libo.append(job("%s/Db/%s.c" % (REPO, f), hdrs + ([REPO + "/Db/crc1.h"] if f == "dbdump" else []), LCC + iflags + ["-I" + REPO + "/Db", "-I" + REPO + "/json"], f))
    libo.append(job(REPO + "/json/yajl_all.c", hdrs, LCC + iflags + ["-I" + REPO + "/json"], "yajl"))
    if srv:
        # the sizes of the queue and of the thread pool are build-time settings in dserve.h: a copy of the sources gets them from the simulation
        sfiles = sorted(glob.glob(REPO + "/Server/*.h")) + ["%s/Server/%s.c" % (REPO, f) for f in SRV]
        sdir = os.path.join(BUILD, "srvsrc-" + filehash(sfiles, "3" + variant)); os.makedirs(sdir, exist_ok=True)
        for f in sfiles:
            t = open(f, errors="surrogateescape").read()
            if f.endswith("/dserve.h"):
                t = re.sub(r"(?m)^#define QUEUE_SIZE .*$", "#define QUEUE_SIZE vsim_queue_size", t if variant == "srv" else re.sub(r"(?m)^#define MULTI_THREAD", "//", t)) + "\nextern int vsim_queue_size, vsim_threads;\n#undef MAX_THREADS\n#define MAX_THREADS vsim_threads\n"
            if f.endswith("/dserve_net.c"): t = t.replace("if (THREADPOOL)", "extern int vsim_pool; if (vsim_pool)")
            d = os.path.join(sdir, os.path.basename(f))
            with open(d + ".tmp", "w", errors="surrogateescape") as o: o.write(t)
            os.rename(d + ".tmp", d)
        for f in SRV: libo.append(job("%s/%s.c" % (sdir, f), shdrs, LCC + ["-I" + inc, "-I" + sdir, "-I" + REPO + "/Db", "-Dmain=dserve_main"] , f))
    if cli: libo.append(job(REPO + "/Main/wgdb.c", hdrs, LCC + iflags + ["-I" + REPO + "/Db", "-Dmain=wgdb_main"], "wgdb"))
    hh = glob.glob(HERE + "/sim/*.h") + glob.glob(HERE + "/scen/*.h")
    hobj = []; simo = []
    for f in ["core", "mem", "fs"] + (["net"] if srv else []): simo.append(job(HERE + "/sim/%s.cpp" % f, hh, HCC, "sim_" + f))
    hobj.append(job(HERE + "/sim/main.cpp", hh, HCC, "main"))
    sc = sorted(glob.glob(HERE + "/scen/*.cpp"))
    for s in sc:
        b = os.path.basename(s)[:-4]
        if b.startswith("srv") != srv or (b.startswith("cli") and not cli): continue
        deps = hh + hdrs
        hobj.append(job(s, deps, HCC + iflags + ["-I" + REPO + "/Db", "-I" + inc, "-DPROTO=%d" % proto], "scen_" + b))
        todo = [j for j in jobs if not os.path.exists(j[0])]
    def run(j):
        o, cmd = j; tmp = o + ".tmp.o"; sh(cmd + [tmp]); os.rename(tmp, o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, todo))
    # put the simulator behind every library call it implements; private data in one section per process
    syms = set()
    for o in simo:
        for l in sh(["nm", "--defined-only", o]).splitlines():
            n = l.split()[-1]
            if n.startswith("sim_"): syms.add(n[4:])
    keyall = filehash(libo + simo + hobj, variant + open(__file__).read())
    outdir = os.path.join(BUILD, "bin"); os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, "wsim_%s_%s" % (variant, keyall))
    if not os.path.exists(out):
        work = os.path.join(BUILD, "link_%s" % keyall); os.makedirs(work, exist_ok=True)
        rf = os.path.join(work, "redef.txt")
        alloc = ["wg_alloc_gints", "wg_alloc_fixlen_object"]
        with open(rf, "w") as f:
            for s in sorted(syms): f.write("%s sim_%s\n" % (s, s))
        rf2 = os.path.join(work, "redef2.txt")
        for k in (0, 1):
            with open(rf2 + str(k), "w") as f:
                f.write(open(rf).read() if not k else open(rf).read().replace("malloc sim_malloc\n", "malloc simhook1_malloc\n"))
                for a in alloc: f.write("%s simhook%d_%s\n" % (a, k, a))
        # the bundled JSON parser does not survive failing allocations; they are injected into WhiteDB's own code only
        with open(rf2 + "y", "w") as f: f.write(open(rf).read().replace("\nmalloc sim_malloc\n", "\nmalloc simnf_malloc\n").replace("\nrealloc sim_realloc\n", "\nrealloc simnf_realloc\n").replace("\ncalloc sim_calloc\n", "\ncalloc simnf_calloc\n"))
        lobj = []; defined = set()
        for o in libo:
            w = os.path.join(work, os.path.basename(o)); is_alloc = os.path.basename(o).startswith("dballoc-"); is_idx = os.path.basename(o).startswith(("dbindex-", "dbhash-"))
            sh(["objcopy", "--redefine-syms=" + (rf2 + "y" if os.path.basename(o).startswith("yajl-") else rf if is_alloc else rf2 + str(int(is_idx))), "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", "--set-section-flags", ".bss=alloc,load,contents,data", o, w]); lobj.append(w)
            defined |= set(l.split()[-1] for l in sh(["nm", "--defined-only", w]).splitlines() if l.strip())
        hooks = []
        for a in alloc:
            if a in defined: hooks.append("-DHAVE_HOOK_" + a)
        ho = os.path.join(work, "hook.o"); sh(HCC + hooks + ["-c", HERE + "/sim/hook.cc", "-x", "c++", "-o", ho] if False else HCC + hooks + ["-x", "c++", "-c", HERE + "/sim/hook.cc", "-o", ho])
        tmp = out + ".tmp"
        sh(["clang++", "-no-pie", "-o", tmp] + lobj + simo + hobj + [ho, "-lm", "-lpthread"])
        os.rename(tmp, out); shutil.rmtree(work)
    os.utime(out)
    # prune
    bins = sorted(glob.glob(outdir + "/wsim_*"), key=os.path.getmtime)
    for b in bins[:-12]: os.unlink(b)
    if len(os.listdir(objs)) > 600:
        for o in sorted(glob.glob(objs + "/*.o"), key=os.path.getmtime)[:-300]:
            if o not in libo + simo + hobj: os.unlink(o)
    return out
if __name__ == "__main__":
    for v in sys.argv[1:]: print(build(v))
