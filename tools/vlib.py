"""Shared machinery of the checks: build, run drivers, run TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
CXXFLAGS = "-O0 -DNDEBUG"

class CheckError(Exception):
    """The check itself could not be carried out."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def ccache_env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_SLOPPINESS"] = "time_macros,include_file_mtime,include_file_ctime"
    e["CCACHE_MAXSIZE"] = "3G"
    e.pop("CCACHE_DISABLE", None)
    return e

def configure(bdir, unity):
    os.makedirs(bdir, exist_ok=True)
    cmd = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=" + CXXFLAGS, "-DCMAKE_C_FLAGS=-O1",
           "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
           "-DUNITY=" + ("ON" if unity else "OFF")]
    if shutil.which("ccache"):
        cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    r = subprocess.run(cmd, env=ccache_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("cmake failed:\n" + r.stdout[-3000:])

def build(*targets):
    """Builds driver targets from /repo's working tree; returns their paths."""
    t0 = time.time()
    out = ""
    for unity in (True, False):
        bdir = os.path.join(BUILD, "b" if unity else "b-nounity")
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            configure(bdir, unity)
        r = subprocess.run(["ninja", "-C", bdir, *targets], env=ccache_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            log("[build] %s: %.1f s" % (" ".join(targets), time.time() - t0))
            return [os.path.join(bdir, t) for t in targets]
        out = r.stdout
        if unity and re.search(r"FAILED: \S*[Uu]nity", out):
            log("[build] falling back to one source per translation unit")
            continue
    raise CheckError("build failed:\n" + out[-6000:])

def workdir(pid):
    d = os.path.join(BUILD, "run", pid + "-" + TIER)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

def run_driver(cmd, timeout, cwd=None, stdin=None, env=None):
    """Runs a driver.  Returns (rc, stderr tail); rc is 'timeout' or a number."""
    try:
        e = dict(os.environ)
        e["LC_ALL"] = "C.UTF-8"
        if env: e.update(env)
        r = subprocess.run(cmd, cwd=cwd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e)
        return r.returncode, (r.stdout[-2000:] + r.stderr[-3000:]).decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "timed out after %d s" % timeout

def tlc(module, cfg, wd, workers=8, timeout=600, extra=(), env=None, specdir=SPEC):
    """Runs TLC on spec/<module>.tla.  Returns (output, stats)."""
    meta = os.path.join(wd, "tlc-" + module + "-" + os.path.basename(cfg).split(".")[0])
    os.makedirs(meta, exist_ok=True)
    cmd = JAVA + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", "-config", os.path.join(specdir, cfg), *extra,
                  os.path.join(specdir, module + ".tla")]
    e = dict(os.environ)
    if env: e.update({k: str(v) for k, v in env.items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s after %d s" % (module, timeout))
    out = r.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    st = {"rc": r.returncode, "wall": time.time() - t0, "states": 0, "distinct": 0}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m and not st["states"]:
        st["states"] = int(m[-1].replace(",", ""))
    log("[tlc] %s/%s rc=%d %.1f s, %d states" % (module, cfg, r.returncode, st["wall"], st["states"]))
    return out, st

def tagged(out, tag):
    """JSON values printed by the specification as  "<tag> <json>"  strings."""
    res = []
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            s = line[1 + len(tag) + 1:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res

def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res

class Report:
    """Collects violations; each has a key (the specific input / call) and a replay text."""
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []
        self.cov = {}
        self.known = known_findings(pid)
        self.hit = set()
        self.samples = []
    def violation(self, key, text):
        if key in self.known:
            self.hit.add(key)
        else:
            self.viol.append((key, text))
    def sample(self, x):
        if len(self.samples) < 12: self.samples.append(x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)[:2000])
    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict(self.cov), "violations": len(self.viol), "wall_s": round(time.time() - self.t0, 2)}
        ev["coverage"]["samples"] = self.samples or ["(none)"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in sorted(self.hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        if self.viol:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.txt" % (self.pid, TIER))
            with open(path, "w") as f:
                for k, t in self.viol[:50]:
                    f.write("== %s\n%s\n" % (k, t))
            for k, t in self.viol[:5]:
                print("violated: %s\n%s" % (k, t[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 0
