"""Runs a harness in shards under its sanitizer, merges what the monitors observed, writes
evidence and gives the verdict."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:"
                    "strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
}


def env(shard=0):
    """Odd shards find fresh heap memory filled with NaN instead of a tiny number, so that
    a value read before it was written shows."""
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.pop("LD_LIBRARY_PATH", None)
    e.update(SAN_ENV)
    if shard % 2:
        e["ASAN_OPTIONS"] += ":max_malloc_fill_size=65536:malloc_fill_byte=255"
    e["VERIF_DIR"] = VERIF
    for p in ("/usr/lib/llvm-18/bin/llvm-symbolizer", shutil.which("llvm-symbolizer") or ""):
        if p and os.path.exists(p):
            e["ASAN_SYMBOLIZER_PATH"] = p
            break
    return e


def load_known(prop):
    """[(pattern, description)] of the findings recorded against this property."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"KNOWN property=(\S+) key=(.+?) :: (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def crash_key(log):
    """A stable key for a sanitizer report or abort: kind and innermost Cantera frame."""
    kind = "abort"
    m = re.search(r"ERROR: AddressSanitizer: (?:attempting )?([\w-]+)", log)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]{0,80})", log)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z ]", "", m.group(1).lower()).strip().replace(" ", "-")[:50]
        elif "terminate called" in log:
            kind = "terminate"
        elif "Assertion" in log:
            kind = "assertion"
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n(]+)", log) if "Cantera::" in f or "tpx::" in f]
    if not fr:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n(]+)", log)[:1]
    return f"crash-{kind}@{fr[0].strip() if fr else 'unknown'}"


def shard_run(exe, base_args, shard, nshards, tmp, timeout, max_restarts, wrapper=()):
    """One shard, restarted past a crashing case so that one defect does not mask others."""
    res = {"results": [], "crashes": [], "hang": None, "errors": []}
    start = 0
    for attempt in range(max_restarts + 1):
        out = os.path.join(tmp, f"out-{shard}-{attempt}.json")
        prog = os.path.join(tmp, f"prog-{shard}")
        log = os.path.join(tmp, f"log-{shard}-{attempt}")
        cmd = [*wrapper, exe, *base_args, "--shard", str(shard), "--nshards", str(nshards),
               "--start", str(start), "--out", out, "--progress", prog]
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env(shard), cwd=tmp)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        if os.path.exists(out):
            try:
                res["results"].append(json.load(open(out)))
            except ValueError:
                pass
        if rc == 0:
            if not (res["results"] and res["results"][-1].get("complete")):
                res["errors"].append(f"shard {shard} exited 0 without a complete result")
            res["log"] = log
            return res
        try:
            lines = open(prog).read().split("\n", 1)
            icase, desc = int(lines[0]), lines[1].strip()
        except (OSError, ValueError, IndexError):
            res["errors"].append(f"shard {shard} rc={rc} before its first case:\n" +
                                 open(log, errors="replace").read()[-3000:])
            return res
        txt = open(log, errors="replace").read()
        if rc == "timeout":
            res["hang"] = {"case": icase, "desc": desc}
            return res
        if rc in (3, -9):
            res["errors"].append(f"shard {shard} rc={rc}: {txt[-2000:]}")
            return res
        i = max(txt.find("ERROR: AddressSanitizer"), txt.find("runtime error:"), 0)
        res["crashes"].append({"key": crash_key(txt), "case": icase, "desc": desc,
                               "log": txt[max(0, i - 200):i + 6000]})
        start = icase + 1
    return res


class Check:
    """Collects the outcome of one or more workload runs for one property."""

    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.evals = 0
        self.counts, self.viol, self.violcount, self.maxima = {}, {}, {}, {}
        self.states, self.samples, self.errors = set(), [], []
        self.extra = {}
        self.assumptions = []
        self.cases = 0

    thorough = property(lambda s: s.tier == "thorough")

    def violation(self, key, detail, replay):
        self.violcount[key] = self.violcount.get(key, 0) + 1
        self.viol.setdefault(key, []).append({"detail": detail, "replay": replay})

    def harness(self, name, cases, flavor="asan", args=(), nshards=None, timeout=None,
                max_restarts=6, prefix=""):
        """Run a C++ harness over `cases` cases."""
        try:
            exe = build.build_harness(name, flavor)
        except build.BuildError as e:
            self.errors.append(f"build of {name} failed: {e}")
            return
        n = nshards or build.JOBS
        timeout = timeout or (3000 if self.thorough else 560)
        base = ["--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier,
                "--cases", str(cases), *map(str, args)]
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda s: shard_run(exe, base, s, n, self.tmp, timeout, max_restarts), range(n)))
        for s, r in enumerate(rs):
            self.errors += r["errors"]
            if r["hang"]:
                # re-run the one case alone before calling it a hang
                h = r["hang"]
                alone = shard_run(exe, base + ["--only", str(h["case"])], 0, 1, self.tmp, 200, 0)
                if alone["hang"]:
                    self.violation(prefix + "hang@" + h["desc"].split(" ")[0],
                                   f"case {h['case']} made no progress: {h['desc']}",
                                   {"harness": name, "flavor": flavor, "case": h["case"], "args": list(args)})
                else:
                    self.errors.append(f"shard {s} ran out of time at case {h['case']}, which ends when run alone")
            for c in r["crashes"]:
                self.violation(prefix + c["key"], f"case {c['case']} {c['desc']}\n{c['log']}",
                               {"harness": name, "flavor": flavor, "case": c["case"], "args": list(args)})
            for j in r["results"]:
                self.merge(j, {"harness": name, "flavor": flavor, "args": list(args)}, prefix)
        return rs

    def merge(self, j, replay, prefix=""):
        self.evals += j["evaluations"]
        for k, v in j["counts"].items():
            self.counts[prefix + k] = self.counts.get(prefix + k, 0) + v
        for k, v in j.get("maxima", {}).items():
            v = float(v)
            self.maxima[k] = max(self.maxima.get(k, v), v)
        for k, v in j["viol_counts"].items():
            self.violcount[prefix + k] = self.violcount.get(prefix + k, 0) + v
        for v in j["violations"]:
            self.viol.setdefault(prefix + v["key"], []).append(
                {"detail": v["detail"], "replay": dict(replay, case=v["case"])})
        self.states |= {prefix + s for s in j["states"]}
        if len(self.samples) < 8:
            self.samples += j["samples"][:2]
        self.cases += j["counts"].get("cases", 0)

    def finish(self, rule, require=(), assumptions=(), min_states=2):
        """Write evidence, print the verdict and return the exit status."""
        known = load_known(self.prop)
        new, seen = [], {}
        for k in sorted(self.viol):
            for pat, desc in known:
                if k == pat or fnmatch.fnmatchcase(k, pat):
                    seen.setdefault(pat, desc)
                    break
            else:
                new.append(k)
        for name in require:
            if not any(c == name or fnmatch.fnmatchcase(c, name) for c in self.counts):
                self.errors.append(f"monitor {name} never observed anything")
        if len(self.states) < min_states:
            self.errors.append(f"only {len(self.states)} distinct states observed")
        cov = {
            "evaluations": int(self.evals),
            "distinct_nontrivial": len(self.states),
            "rule": rule,
            "samples": (self.samples or ["none"])[:8],
            "workload_cases": self.cases,
            "events_observed": dict(sorted(self.counts.items())),
            "known_findings_observed": sorted(seen),
        }
        if self.maxima:
            cov["maxima"] = self.maxima
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": list(assumptions) + self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for pat, desc in seen.items():
            print(f"KNOWN-FINDING: property={self.prop} {desc} [{pat}]")
        rdir = os.path.join(VERIF, "evidence", "replay")
        for i, k in enumerate(new):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": k, "seed": self.seed, "tier": self.tier,
                           "count": self.violcount.get(k), "witnesses": self.viol[k][:3],
                           "how": f"python3 {VERIF}/lib/replay.py {path}"}, f, indent=1)
            if i < 15:
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  {k} ({self.violcount.get(k)}x): {self.viol[k][0]['detail'][:600]}")
        if len(new) > 15:
            print(f"  ... and {len(new) - 15} more kinds of violation")
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.prop}: {self.cases} cases, {self.evals} oracle evaluations, "
              f"{len(self.states)} distinct states, {len(new)} violations, "
              f"{time.time() - self.t0:.1f} s")
        if new:
            return 1
        if self.errors:
            for e in self.errors:
                print("INCONCLUSIVE:", e[:3000])
            return 2
        return 0
