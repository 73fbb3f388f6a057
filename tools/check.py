#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.
usage: check.py PROP            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE   (re-executes a replay file on the current tree)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check."""
import os, sys, subprocess, json, time, glob, re, struct, shutil, threading, queue, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
import build as B

QUICK_SECS, THOROUGH_SECS = 80, 780
LEVEL = {}
REAL = "virtual machine, heap and collector, string table, dictionaries, message queues and (de)serialisers, stigmergy, swarm and neighbour modules, math/io/string libraries, parser, assembler, disassembler, debugger (all of src/buzz, compiled from the working tree)"
STUB = "robot host and radio (simulated network with seeded faults), clock, disk and environment (simulated), process exit (intercepted); ARGoS/ROS bindings are not run"

def sh(cmd, timeout=120):
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, errors="replace", text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, o.decode(errors="replace") if isinstance(o, bytes) else o

def classify(rc, out):
    """-> (class or '', message, hash)"""
    h = re.search(r"^HASH (\w+)", out, re.M); h = h.group(1) if h else ""
    m = re.search(r"^VIOL (\S+) (.*)$", out, re.M)
    if m: return m.group(1), m.group(2), h
    if re.search(r"^HANG", out, re.M) or rc == 124: return "hang", "the run never ends", h
    if rc == 0 and re.search(r"^OK$", out, re.M): return "", "", h
    if rc in (2, 3, 9): return "error", "simulator error: " + out[-300:], h
    return "crash", "the process dies (status %d)" % rc, h

def flavour(prop, fl):
    """the fast build for the properties that switch between robots inside of library functions is not optimised"""
    return "o0" if prop in ("P10", "P16") and fl == "fast" else fl

def crash_note(binary, plan):
    """first lines of the sanitizer report, if any"""
    p = subprocess.run([binary, "exec", plan], capture_output=True, errors="replace", text=True)
    t = p.stdout + p.stderr
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]{0,120})", t)
    return m.group(1) if m else ""

class Search:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.bins = {}
        self.work = os.path.join(VERIF, "build", "work.%s.%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.stats = {"runs": 0, "nontrivial": 0, "simsteps": 0, "bb": 0}
        self.blocks = 0; self.faults = {}; self.probes = {}
        self.by_flavour = {}
        self.replayed = 0

    def cleanup(self):
        if self.prop == "P14":
            for f in glob.glob(os.path.join(VERIF, "build", "bzzsim.*")): shutil.rmtree(f, ignore_errors=True)
        for f in glob.glob(self.work + "/*"):
            try: os.remove(f)
            except OSError: pass
        try: os.rmdir(self.work)
        except OSError: pass

    def build(self):
        for fl in ("fast", "asan"): self.bins[fl] = B.build(flavour(self.prop, fl))

    def exec(self, fl, plan, timeout=240):
        return classify(*sh([self.bins[fl], "exec", plan], timeout))

    # ---- a violation is reported only if it reproduces exactly in fresh processes
    def confirm(self, fl, plantext, label):
        raw = self.work + "/raw.plan"; mn = self.work + "/min.plan"
        with open(raw, "w") as f: f.write(plantext)
        for exact in (True, False):
            for fl2 in (fl, "asan" if fl == "fast" else "fast"):
                a = self.exec(fl2, raw); b = self.exec(fl2, raw)
                if a[0] and a[0] != "error" and a[0] == b[0] and (a[2] == b[2] or not exact): break
            else: continue
            break
        else:
            return None
        fl = fl2
        if not exact:      # the code under test depends on something outside of the simulation (addresses, real time): it fails every time, but in different ways
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = "%s/replays/%s-%s.plan" % (VERIF, self.prop, label)
            with open(path, "w") as f:
                f.write("# replay: python3 tools/check.py --replay %s\n# flavour %s class %s hash differs from run to run\n# %s\n%s" % (path, fl, a[0], a[1].replace("\n", " "), plantext))
            return a[0], a[1] + " (the details differ from run to run)", path
        best, res = raw, a
        rc, out = sh([self.bins[fl], "min", raw, mn, "40"], 300)
        if rc == 0 and os.path.exists(mn):
            c = self.exec(fl, mn); d = self.exec(fl, mn)
            if c[0] == a[0] and c == d: best, res = mn, c
        note = ""
        if res[0] == "crash": note = crash_note(self.bins["asan"], best)
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s-%s.plan" % (VERIF, self.prop, label)
        with open(best) as f: body = f.read()
        with open(path, "w") as f:
            f.write("# replay: python3 tools/check.py --replay %s\n# flavour %s class %s hash %s\n# %s %s\n%s" % (path, fl, res[0], res[2] or "-", res[1].replace("\n", " "), note, body))
        return res[0], res[1] + (" [" + note + "]" if note else ""), path

    def confirm_range(self, fl, first, stride, seed):
        """violation that needs the earlier runs of the same process"""
        n = (seed - first) // stride + 1
        outs = []
        for _ in range(2):
            rc, out = sh([self.bins[fl], "run", self.prop, str(first), str(stride), str(n), "100000"], 800)
            m = re.search(r"^V (\d+) (\S+) (.*)$", out, re.M)
            if m: outs.append((m.group(1), m.group(2), m.group(3)))
            elif rc != 0: bs = re.findall(r"^B (\d+)", out, re.M); outs.append((bs[-1] if bs else "", "crash", "the process dies (status %d)" % rc))
            else: return None
        if outs[0] != outs[1]: return None
        path = "%s/replays/%s-range-%s.plan" % (VERIF, self.prop, outs[0][0])
        os.makedirs(VERIF + "/replays", exist_ok=True)
        with open(path, "w") as f:
            f.write("# replay: python3 tools/check.py --replay %s\n# flavour %s class %s\nrange %s %d %d %d\n" % (path, fl, outs[0][1], self.prop, first, stride, n))
        return outs[0][1], outs[0][2] + " (needs the earlier runs of the same process)", path

    def report(self, r):
        print("%s: %s" % (r[0], r[1][:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, r[2]))

    # ---- plans that once failed
    def corpus(self):
        for f in sorted(glob.glob(VERIF + "/corpus/%s/*.plan" % self.prop)):
            for fl in ("asan", "fast"):
                self.replayed += 1
                c = self.exec(fl, f)
                if c[0] == "error": raise SystemExit("corpus plan %s: %s" % (f, c[1]))
                if c[0]:
                    with open(f) as x: r = self.confirm(fl, x.read(), "corpus-" + os.path.basename(f)[:-5])
                    if r: return r
        return None

    def search(self, secs):
        ncpu = os.cpu_count() or 4
        nasan = max(1, ncpu // 3); nfast = max(1, ncpu - nasan)
        base = self.seed * 10000000
        jobs = [("fast", base + i, nfast) for i in range(nfast)] + [("asan", base + 5000000 + i, nasan) for i in range(nasan)]
        found = []; lock = threading.Lock(); procs = []; stop = threading.Event()
        def worker(k, fl, first, stride):
            hf = "%s/hash.%d" % (self.work, k)
            p = subprocess.Popen([self.bins[fl], "run", self.prop, str(first), str(stride), "1000000000", str(secs), hf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, errors="replace", text=True)
            with lock: procs.append(p)
            last = None; st = None; done = False; v = None; tstart = time.time()
            for line in p.stdout:
                if line.startswith("B "): last = int(line[2:])
                elif line.startswith("STATS "): st = json.loads(line[6:])
                elif line.startswith("V "): m = re.match(r"V (\d+) (\S+) (.*)", line); v = (int(m.group(1)), m.group(2), m.group(3))
                elif line.startswith("DONE"): done = True
            rc = p.wait()
            with lock:
                if st:
                    for x in self.stats: self.stats[x] += st[x]
                    self.blocks = max(self.blocks, st["blocks"])
                    for d, s in ((self.faults, st["faults"]), (self.probes, st["probes"])):
                        for a, b in s.items(): d[a] = d.get(a, 0) + b
                    bf = self.by_flavour.setdefault(fl, [0, 0.0]); bf[0] += st["runs"]; bf[1] += time.time() - tstart
                if v: found.append((fl, first, stride, v[0], v[1], v[2]))
                elif not done and not stop.is_set(): found.append((fl, first, stride, last, "crash", "worker ended with status %d" % rc))
                if found and not stop.is_set():
                    stop.set()
                    for q in procs:
                        if q.poll() is None: q.terminate()
        ts = [threading.Thread(target=worker, args=(k,) + j) for k, j in enumerate(jobs)]
        for t in ts: t.start()
        for t in ts:
            t.join(max(1, secs + 240))
        if any(t.is_alive() for t in ts):
            for q in procs:
                if q.poll() is None: q.kill()
            for t in ts: t.join(10)
        if not found: return None
        unconf = None
        for fl, first, stride, seed, cls, msg in found:
            if seed is None: continue
            rc, plan = sh([self.bins[fl], "gen", self.prop, str(seed)])
            r = self.confirm(fl, plan, str(seed)) if rc == 0 else None
            if not r: r = self.confirm_range(fl, first, stride, seed)
            if r: return r
            unconf = (fl, seed, cls, msg)
        raise SystemExit("not reproducible: %s" % (unconf,))

    def determinism(self):
        a = {fl: sh([self.bins[fl], "hashes", self.prop, str(self.seed * 10000000), "3"], 120)[1] for fl in ("fast", "asan")}
        b = sh([self.bins["fast"], "hashes", self.prop, str(self.seed * 10000000), "3"], 120)[1]
        return {"seeds": 3, "same_seed_same_trace": a["fast"] == b, "same_trace_in_both_builds": a["fast"] == a["asan"]}

    def evidence(self, wall, viol, det, rule):
        hs = set()
        for f in glob.glob(self.work + "/hash.*"):
            with open(f, "rb") as x: d = x.read()
            hs.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
        rc, sample = sh([self.bins["fast"], "gen", self.prop, str(self.seed * 10000000)])
        lines = sample.splitlines()
        tr = ""
        if lines:
            f = self.work + "/s.plan"
            with open(f, "w") as x: x.write(sample)
            tr = [l.strip()[:160] for l in sh([self.bins["fast"], "exec", f, "-v"])[1].splitlines()][:25]
        s = self.stats
        cov = {
            "evaluations": s["runs"] + self.replayed, "distinct_nontrivial": len(hs), "rule": rule,
            "samples": [{"seed": self.seed * 10000000, "plan": lines[:60], "plan_lines": len(lines), "trace_begins": tr}],
            "nontrivial_runs": s["nontrivial"], "corpus_plans_executed": self.replayed,
            "runs_per_hour": int(s["runs"] / max(wall, 1e-3) * 3600),
            "runs_per_build": {k: v[0] for k, v in self.by_flavour.items()},
            "first_seed": self.seed * 10000000, "simulated_steps": s["simsteps"], "simulated_seconds": round(s["simsteps"] * 0.1, 1),
            "faults_injected": self.faults, "conditions_reached": self.probes,
            "distinct_interleavings_measure": "distinct_nontrivial counts different hashes of the full event trace of non-trivial runs",
            "library_basic_blocks_reached": self.blocks, "library_basic_blocks_executed": s["bb"],
            "determinism_check": det, "real_components": REAL, "stub_components": STUB,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ["single-threaded use of each virtual machine, as the library requires", "see DESIGN.md for inputs that the workloads leave out"],
              "wall_s": round(wall, 2), "violations": viol}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f: json.dump(ev, f, indent=1)

def known(prop, s):
    """committed findings: a plan that is known to fail, by class"""
    p = VERIF + "/known-findings.txt"
    if not os.path.exists(p): return
    for line in open(p):
        m = re.match(r"finding: property=(\S+) class=(\S+) plan=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            c = s.exec("asan", os.path.join(VERIF, m.group(3)))
            if c[0] == m.group(2): print("KNOWN-FINDING: property=%s %s" % (prop, m.group(4)))

def replay(path):
    with open(path) as f: t = f.read()
    m = re.search(r"# flavour (\S+) class (\S+)", t); fl = m.group(1) if m else "asan"
    r = re.search(r"^range (\S+) (\d+) (\d+) (\d+)$", t, re.M)
    pr = r or re.search(r"^prop (\S+)$", t, re.M)
    b = B.build(flavour(pr.group(1) if pr else "", fl))
    if r:
        os.execv(b, [b, "run", r.group(1), r.group(2), r.group(3), r.group(4), "100000"])
    os.execv(b, [b, "exec", path, "-v"])

def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    seed = abs(seed) % 1000000
    t0 = time.time()
    s = Search(prop, seed, tier)
    try:
        s.build()
        rules = dict(l.split("\t", 1) for l in sh([s.bins["fast"], "list"])[1].splitlines() if "\t" in l)
        t1 = time.time()
        r = s.corpus()
        det = {}
        if not r:
            secs = float(os.environ.get("VERIF_SECS", QUICK_SECS if tier == "quick" else THOROUGH_SECS))
            r = s.search(secs)
        if not r: det = s.determinism()
        s.evidence(time.time() - t1, 1 if r else 0, det, rules.get(prop, ""))
        known(prop, s)
        if r:
            s.report(r); return 1
        print("%s: held on %d simulated runs (%d non-trivial), %d simulated steps, %.0f s" % (prop, s.stats["runs"], s.stats["nontrivial"], s.stats["simsteps"], time.time() - t0))
        return 0
    except SystemExit as e:
        print("ERROR", e); return 2
    finally:
        s.cleanup()

if __name__ == "__main__": sys.exit(main())
