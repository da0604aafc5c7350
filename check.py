#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decides one property by seeded simulation (see DESIGN.md)."""
import sys, os, json, time, subprocess, struct, re, glob, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS
def die(msg):
    print("CHECK ERROR: " + msg); sys.exit(2)
def run(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")
def findings(pid):
    p = os.path.join(HERE, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append(l.strip())
    return out
def confirm(binary, viol, pid, shrink_s):
    """minimise, then reproduce twice in fresh processes; returns the replay path or None"""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dst = os.path.join(HERE, "replays", "%s-%d.replay" % (pid, os.getpid()))
    def rep(path):
        rc, o = run([binary, "--replay", path], 300); m = re.search(r"^REPLAY (\w+) class=(\S+) hash=(\d+) msg=(.*)$", o, re.M)
        if m: return (m.group(1) == "violated", m.group(2), m.group(3), m.group(4))
        m = re.search(r"^VIOL class=(\S+) msg=(.*?) seed", o, re.M)
        if m: return (True, m.group(1), "-", m.group(2))
        return (False, "?", "?", o[-300:])
    orig = [rep(viol) for _ in range(2)]
    # the code under test may read memory it does not own: then only the class repeats
    if not (orig[0][0] and orig[1][0] and orig[0][1] == orig[1][1]): return None, orig
    shutil.copy(viol, dst + ".tmp")
    rc, o = run([binary, "--shrink", dst + ".tmp", "--time", str(shrink_s)], shrink_s + 120)
    src = viol
    if rc == 0:
        a, b = rep(dst + ".tmp"), rep(dst + ".tmp")
        if a[0] and b[0] and a[1] == b[1]: src = dst + ".tmp"; orig[0] = a
    shutil.copy(src, dst)
    if os.path.exists(dst + ".tmp"): os.unlink(dst + ".tmp")
    rc, o = run([binary, "--replay", dst, "--verbose"], 300)
    with open(dst + ".trace", "w") as f: f.write(o)
    return dst, orig
def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = CHECKS[pid]; t0 = time.time()
    budget = cfg.get("quick_s", 50) if tier == "quick" else cfg.get("thorough_s", 600)
    if os.environ.get("CHECK_BUDGET"): budget = float(os.environ["CHECK_BUDGET"])
    bins = {}
    for v in sorted(set(p["variant"] for p in cfg["parts"])): bins[v] = B.build(v)
    tmp = tempfile.mkdtemp(prefix="chk_%s_" % pid, dir=os.path.join(HERE, "build"))
    try: rc = body(pid, tier, seed, cfg, budget, bins, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
def body(pid, tier, seed, cfg, budget, bins, tmp, t0):
    for l in findings(pid): print(l)
    base = (seed * 1000003) % (1 << 40) * 100000
    ncpu = 8
    parts = cfg["parts"]
    # determinism of the simulator itself: same seeds, different processes, different order of work
    ndet = 12 if tier == "quick" else 60
    procs = []
    for i, p in enumerate(parts):
        opts = sum([["--opt", k, str(v)] for k, v in dict(p.get("opts", {}), property=pid).items()], [])
        p["_o"] = opts
        for rep in range(2): procs.append((i, rep, subprocess.Popen([bins[p["variant"]], "--scen", p["scen"], "--hashes", "--start", str(base + 7 + rep * 3), "--runs", str(ndet - rep * 3)] + opts, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
    outs = {}
    for i, rep, pr in procs: outs[(i, rep)] = pr.communicate()[0].decode("utf-8", "replace").splitlines()
    det = 0; nondet = None
    for i in range(len(parts)):
        a, b = outs[(i, 0)][3:], outs[(i, 1)]
        n = min(len(a), len(b))
        for x, y in zip(a[:n], b[:n]):
            if x.startswith("VIOL") or y.startswith("VIOL"): break
            if x != y: nondet = "simulation is not deterministic: %s / %s" % (x, y)
            det += 1
    viol = None; corpus_runs = 0
    # schedules and fault traces that once failed
    for i, p in enumerate(parts):
        for rp in sorted(glob.glob(os.path.join(HERE, "corpus", pid, "*.replay"))):
            if "scenario %s\n" % p["scen"] not in open(rp).read(): continue
            o = p["_o"]; rc, out = run([bins[p["variant"]], "--replay", rp], 120); corpus_runs += 1
            if rc in (1, 3): viol = (p, rp); break
        if viol: break
    js = []; nw = 0
    if not viol:
        tot = sum(p.get("weight", 1) for p in parts); jobs = []
        alloc = [max(1, round(ncpu * p.get("weight", 1) / tot)) for p in parts]
        rounds = max(1, -(-sum(alloc) // ncpu)); slot = budget / rounds if len(parts) > ncpu else budget
        k = 0
        for p, n in zip(parts, alloc):
            for w in range(n):
                jobs.append((p, w, n, os.path.join(tmp, "w%d" % k))); k += 1
        running = []; queue = list(jobs); nw = len(jobs); errs = []
        while queue or running:
            while queue and len(running) < max(ncpu, len(parts)):
                p, w, n, out = queue.pop(0)
                running.append((p, out, subprocess.Popen([bins[p["variant"]], "--scen", p["scen"], "--start", str(base + 100 + w), "--step", str(n), "--time", str(slot), "--out", out] + p["_o"], stdout=open(out + ".log", "wb"), stderr=subprocess.STDOUT), time.time()))
            time.sleep(0.05)
            for r in list(running):
                p, out, pr, ts = r; rc = pr.poll()
                if rc is None:
                    if time.time() - ts > slot + 120: pr.kill(); errs.append("worker stuck: " + p["scen"])
                    else: continue
                running.remove(r)
                if rc == 3: viol = viol or (p, out + ".viol")
                elif rc != 0: errs.append("worker ended with %s: %s" % (rc, open(out + ".log", errors="replace").read()[-500:]))
                if os.path.exists(out + ".json"): js.append((p, out, json.load(open(out + ".json"))))
            if viol:
                for r in running: r[2].kill(); r[2].wait()
                queue = []; running = []
        if errs and not viol: die("; ".join(errs))
    if nondet and not viol: die(nondet)
    rc = 0
    if viol:
        p, path = viol
        dst, info = confirm(bins[p["variant"]], path, pid, 25 if tier == "quick" else 120)
        if not dst: die("a violation did not reproduce identically: %r" % (info,))
        print("violated: class=%s %s" % (info[0][1], info[0][3]))
        print("VIOLATION property=%s replay=%s" % (pid, dst)); rc = 1
    evidence(pid, tier, seed, cfg, js, corpus_runs, det, time.time() - t0, 1 if viol else 0)
    tr = sum(j["runs"] for _, _, j in js)
    print("%s %s: %d simulated runs, %.0f s" % (pid, tier, tr, time.time() - t0))
    return rc
def evidence(pid, tier, seed, cfg, js, corpus_runs, det, wall, nviol):
    runs = sum(j["runs"] for _, _, j in js); H = set(); I = set()
    for _, out, j in js:
        for ext, S in ((".hash", H), (".ihash", I)):
            if os.path.exists(out + ext):
                d = open(out + ext, "rb").read(); S.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    faults = {}; probes = {}
    for _, _, j in js:
        for k, v in j["faults"].items():
            f = faults.setdefault(k, {"fired": 0, "opportunities": 0}); f["fired"] += v["fired"]; f["opportunities"] += v["opportunities"]
        for k, v in j["probes"].items(): probes[k] = probes.get(k, 0) + v
    samples = sum([j["samples"] for _, _, j in js], [])[:5]
    searchw = max([j["wall"] for _, _, j in js] + [0.001])
    cov = dict(evaluations=runs + corpus_runs, distinct_nontrivial=len(H),
        rule=cfg["rule"], samples=samples or [{"note": "no complete run before the violation"}],
        simulated_runs=runs, runs_per_hour=int(runs / searchw * 3600), seeds_per_hour=int(runs / searchw * 3600),
        simulated_seconds=round(sum(j["simtime_ns"] for _, _, j in js) / 1e9, 1),
        memory_accesses_simulated=sum(j["accesses"] for _, _, j in js), context_switches=sum(j["switches"] for _, _, j in js),
        system_calls_simulated=sum(j["syscalls"] for _, _, j in js), faults=faults, probes=probes,
        distinct_interleavings=len(I), interleaving_measure="distinct hashes of the sequence (client switched to, position in its execution) over a run",
        regression_replays=corpus_runs, determinism_pairs_compared=det,
        real_code=cfg["real"], stubbed=cfg["stub"], parts=[dict(scenario=p["scen"], build=p["variant"], options=p.get("opts", {})) for p in cfg["parts"]])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=cfg["assumptions"], wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
if __name__ == "__main__": main()
