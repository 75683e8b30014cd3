#!/usr/bin/env python3
"""Runs the static checks of one property (or of all of them) on /repo's current source.

usage: check.py <property> [--tier quick|thorough] [--repo DIR] [--all]
exit 0: every rule of the property holds; 1: VIOLATION line printed; 2: the analysis itself is broken.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/bin/clang++"

def die(msg):
    print("ANALYSIS-BROKEN " + msg); sys.exit(2)

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(HERE, "tool"), "B=" + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: die("the analyser does not build:\n" + r.stdout[-3000:])

def sh(cmd, timeout=800):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

IRFLAGS = ["-std=c++17", "-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-w"]

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.tmp = prop, tier, tempfile.mkdtemp(prefix="verif-")
        self.findings, self.stats, self.analysed, self.broken, self.undecided, self.notes = [], {}, [], [], [], []
        self.pool = cf.ThreadPoolExecutor(8)
    def compile(self, src, name, extra=(), flags=None):
        out = os.path.join(self.tmp, name + ".bc")
        if not os.path.isabs(src): src = os.path.join(HERE, src)
        rc, o = sh([CLANG, *(flags or IRFLAGS), "-I" + os.path.join(REPO, "include"), "-I" + REPO, *extra, "-emit-llvm", "-c", src, "-o", out])
        if rc:
            self.broken.append("%s does not compile against the current tree: %s" % (os.path.basename(src), o[:1500])); return None
        return out
    def sa(self, mode, bc, *args):
        out = bc + "." + hashlib.md5(" ".join(args).encode()).hexdigest()[:8] + ".json"
        rc, o = sh([os.path.join(BUILD, "sa"), mode, bc, out, *args], timeout=3000 if self.tier == "thorough" else 500)
        if rc == 124: self.undecided.append("%s %s: not finished in time" % (mode, " ".join(args))); return
        if rc or not os.path.exists(out):
            self.broken.append("analyser failed (%s %s): rc=%d %s" % (mode, " ".join(args), rc, o[-800:])); return
        d = json.load(open(out))
        self.findings += d["findings"]; self.analysed += d["analysed"]; self.broken += d["broken"]; self.undecided += d["undecided"]
        for k, v in d["stats"].items(): self.stats[k] = self.stats.get(k, 0) + v
    def par(self, jobs):
        for f in [self.pool.submit(*j) for j in jobs]: f.result()
    def require(self, key, n):
        if self.stats.get(key, 0) < n: self.broken.append("only %d %s found, at least %d expected" % (self.stats.get(key, 0), key, n))

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) rule=(\S+) where=(\S+) :: (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def run(prop, tier, verbose=True):
    import units
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Run(prop, tier)
    try:
        for u in units.PROPS[prop]["units"]: getattr(units, "unit_" + u)(R)
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)
    mine = [f for f in R.findings if prop in f["props"].split(",")]
    others = sorted({f["props"] + ":" + f["rule"] for f in R.findings if prop not in f["props"].split(",")})
    kn = [k for k in known_findings() if k[0] == prop]; viol, seen_known = [], []
    for f in mine:
        text = "%s %s %s %s" % (f["rule"], f["func"], f["loc"], f["msg"])
        hit = [k for k in kn if k[1] == f["rule"] and k[2] in (f["func"] + " " + f["loc"])]
        if hit: seen_known.append((hit[0], text))
        else: viol.append((f, text))
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
    P = units.PROPS[prop]
    cov = {"explanation": P["explain"], "rule": P["rule"], "units_analysed": sorted(set(R.analysed)), "functions_analysed": len(set(R.analysed)),
           "counts": {k: v for k, v in sorted(R.stats.items()) if k != "steps"}, "abstract_steps": R.stats.get("steps", 0),
           "undecided": sorted(set(R.undecided)), "broken": R.broken, "findings_for_other_properties": others, "notes": R.notes}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": P.get("assumptions", units.ASSUME),
               "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    for u in sorted(set(R.undecided)): print("UNDECIDED " + u)
    shown = set()
    for k, text in seen_known:
        if k in shown: continue
        shown.add(k); print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if viol:
        rp = os.path.join(evd, "replay-%s.txt" % prop)
        with open(rp, "w") as fp:
            fp.write("property %s: %s\nre-run: cd %s && python3 check.py %s\n\n" % (prop, P["rule"], HERE, prop))
            for f, text in viol: fp.write(text + "\n")
        for f, text in viol: print("  " + text)
        print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
    if R.broken:
        for b in R.broken: print("ANALYSIS-BROKEN " + b)
        return 2
    print("OK property=%s functions=%d wall=%.1fs" % (prop, len(set(R.analysed)), time.time() - t0)); return 0

if __name__ == "__main__":
    a = sys.argv[1:]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    build_tool()
    if a and a[0] == "setup": print("analyser built"); sys.exit(0)
    import units
    ids = sorted(units.PROPS) if "--all" in a else [a[0]]
    rc = 0
    for i in ids:
        r = run(i, "thorough" if tier == "thorough" else "quick"); rc = max(rc, r)
    sys.exit(rc)
