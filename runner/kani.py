"""Kani (CBMC) harnesses: the real functions with symbolic bytes and integers.

A `hold` harness ends in an assertion; it holds if CBMC finds no input that falsifies it.  A `reject`
harness ends in `assert!(false, "RETURNED")` after a call that must panic for every input: it holds if
CBMC shows that assertion unreachable (while some panic of the code is reachable).  A counterexample is
run natively on the real types (kreplay) before it counts; anything else is undecided.
"""
import os, re, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEX = ["fields::utils::from_hex"]
FN = {"p2_": ["Poseidon2Params::new"], "gm": ["GmimcParams::new"], "ne": ["NeptuneParams::new"], "he": HEX}
HARNESSES = {
    "C13": {"quick": ["hex_0", "hex_2", "hex_4", "hex_6", "hex_8", "hex_prefix"] + ["hex_bad_%d" % i for i in range(1, 8)] + ["hex_f31_8", "hex_f31_12", "hex_f64_16", "hex_f64_20", "hex_16", "hex_bad_16", "hex_f31_32", "hex_f64_32", "hex_f254_32", "hex_f255_32", "hex_f255b_32", "hex_bad_32", "hex_32",
                      "hex_f255b_66", "hex_64", "hex_bad_64", "hex_80_low", "hex_bad_65"],
            "thorough": ["hex_66", "hex_80_top", "hex_80_mid", "hex_bad_80_top", "hex_bad_80_low", "hex_bad_63"]},
    "C15": {"quick": ["neptune_rounds", "neptune_degree", "p2_degree", "p2_rounds", "gmimc_degree"], "thorough": []},
}
REJECT = lambda h: not (h.startswith("hex_") and not h.startswith("hex_bad"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "target", "kani"), CARGO_TERM_COLOR="never",
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
FLAGS = ["--lib", "--exact", "--output-format", "regular", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-assertion-reach-checks"]
JOBS, MEM_KB = 8, 11000000
CAPACITY = 27  # GB that the running harnesses may need together

def weight(h):
    n = re.search(r"hex_.*?(\d+)(_[a-z]+)?$", h)
    n = int(n.group(1)) if n else 0
    return 10 if n >= 70 else 8 if n == 66 else 7 if n >= 60 else 3 if n >= 30 else 1

class Memory:
    def __init__(self):
        self.c, self.used = threading.Condition(), 0
    def take(self, w):
        with self.c:
            self.c.wait_for(lambda: self.used + w <= CAPACITY)
            self.used += w
    def give(self, w):
        with self.c:
            self.used -= w
            self.c.notify_all()
BUDGET = {"quick": 620, "thorough": 5400}

LIVE = set()

def sh(cmd, timeout, limit=False):
    c = "ulimit -v %d; exec \"$@\"" % MEM_KB if limit else "exec \"$@\""
    p = subprocess.Popen(["bash", "-c", c, "x"] + cmd, cwd=os.path.join(V, "kani"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    if limit:
        LIVE.add(p.pid)
    try:
        out, _ = p.communicate(timeout=timeout)
        LIVE.discard(p.pid)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        LIVE.discard(p.pid)
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -1, out

def codegen():
    return sh(["cargo", "kani", "--lib", "--only-codegen", "-Z", "unstable-options"], 800)

def kreplay(harness, arg):
    exe = os.path.join(V, "target", "kreplay", "checked", "kreplay")
    try:
        return subprocess.run([exe, harness, arg], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.strip()
    except subprocess.TimeoutExpired:
        return "UNUSABLE timeout"

def playback(out):
    # one test per failed check; those that speak of the property come first
    tests = out.split("Concrete playback unit test for")[1:]
    tests.sort(key=lambda b: not ("RETURNED" in b or "PROPERTY" in b))
    vals = []
    for b in tests:
        m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", b, re.S)
        if m:
            vals.append(";".join(x.replace(" ", "") for x in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))))
    return vals

def one(h, end, stop):
    t = time.time()
    r = {"harness": h, "status": "undecided", "failed_checks": [], "functions": next(v for k, v in FN.items() if h.startswith(k)), "checks": 0, "wall_s": 0.0}
    if stop.is_set() or end - t < 5:
        return dict(r, detail="not run: " + ("a violation was found" if stop.is_set() else "no time left"))
    rc, out = sh(["cargo", "kani", "--harness", "proofs::" + h, "-Z", "concrete-playback", "--concrete-playback=print"] + FLAGS, end - t, True)
    fails = re.findall(r"Failed Checks: (.*)", out)
    m = re.search(r"\*\* (\d+) of (\d+) failed", out)
    r["checks"] = int(m.group(2)) if m else 0
    m = re.search(r"Verification Time: ([0-9.]+)s", out)
    r["solver_time_s"] = float(m.group(1)) if m else None
    r["failed_checks"] = fails
    ok, bad = "VERIFICATION:- SUCCESSFUL" in out, "VERIFICATION:- FAILED" in out
    suspect = False
    if REJECT(h) and bad and any("RETURNED" in f for f in fails):
        suspect = True
    elif any("unwinding" in f or "unsupported" in f.lower() or "not currently supported" in f for f in fails):
        r["detail"] = "loops beyond the unwinding bound or constructs Kani does not support: " + "; ".join(fails)[:200]
    elif REJECT(h):
        if bad and fails:
            v = kreplay(h, "valid")
            if v == "VALID":
                r["status"] = "holds"
            else:
                r["detail"] = "the acceptable arguments are not accepted either"
        else:
            r["detail"] = "no verdict (exit %d)" % rc
    elif ok:
        r["status"] = "holds"
    elif bad and fails:
        suspect = True
    else:
        r["detail"] = "no verdict (exit %d)" % rc
    if suspect:
        verdict = "no values"
        for vals in playback(out)[:6]:
            verdict, r["inputs"] = kreplay(h, vals), vals
            if verdict.startswith("VIOLATED"):
                break
        if verdict.startswith("VIOLATED"):
            r["status"], r["confirmed_by"] = "violated", "native"
            stop.set()
            for pid in list(LIVE):  # the others need not go on
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            r["failed_checks"] = [verdict] + r["failed_checks"]
        else:
            r["detail"] = "counterexample not confirmed natively: " + verdict
    r["wall_s"] = round(time.time() - t, 1)
    return r

class Job:
    def __init__(self, prop, tier):
        hs = HARNESSES[prop]["quick"] + (HARNESSES[prop]["thorough"] if tier == "thorough" else [])
        self.hs, self.res, self.end = hs, [], time.time() + BUDGET.get(tier, 620)
        self.th = threading.Thread(target=self.go)
        self.th.start()
    def go(self):
        for cmd in (["bash", os.path.join(V, "build.sh"), "kreplay", "checked"], None):
            rc, out = sh(cmd, 800) if cmd else codegen()
            if rc != 0:
                why = "the harness crate does not build: " + " ".join(re.findall(r"error.*", out)[:2])[:200]
                self.res = [{"harness": h, "status": "undecided", "wall_s": 0.0, "failed_checks": [], "functions": [], "detail": why} for h in self.hs]
                return
        stop, mem = threading.Event(), Memory()
        def go(h):
            w = weight(h)
            mem.take(w)
            try:
                return one(h, self.end, stop)
            finally:
                mem.give(w)
        # the large ones first, as many as the memory allows, the small ones beside them
        big = [h for h in self.hs if weight(h) > 3]
        small = [h for h in self.hs if weight(h) <= 3]
        with ThreadPoolExecutor(3) as eb, ThreadPoolExecutor(JOBS - 3) as es:
            fs = [eb.submit(go, h) for h in big] + [es.submit(go, h) for h in small]
            res = {h: f.result() for h, f in zip(big + small, fs)}
        self.res = [res[h] for h in self.hs]

def start(prop, tier, work):
    return Job(prop, tier)

def finish(j):
    j.th.join()
    return j.res

def replay(v):
    subprocess.run(["bash", os.path.join(V, "build.sh"), "kreplay", "checked"], check=True, stdout=subprocess.DEVNULL)
    out = kreplay(v["harness"], v["inputs"] or "")
    print(out)
    return 1 if out.startswith("VIOLATED") else 0
