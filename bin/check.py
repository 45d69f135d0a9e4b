#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - decides one property on /repo's current working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from plan import PLAN, ASSUME

VERIF = vbuild.VERIF
NSH = 8

def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known

def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:max_allocation_size_mb=512:detect_stack_use_after_return=1:handle_abort=1:abort_on_error=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0"
    return e

VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--show-mismatched-frees=no", "--expensive-definedness-checks=yes",
            "--main-stacksize=67108864", "--max-stackframe=16777216"]

def have_valgrind():
    try: return subprocess.run(["valgrind", "-q", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except Exception: return False

class Shard:
    def __init__(self, exe, flavour, driver, prop, seed, tier, k, n, work, extra=()):
        self.exe, self.flavour, self.driver, self.prop, self.seed, self.tier, self.k, self.n = exe, flavour, driver, prop, seed, tier, k, n
        tag = "%s-%s-%d%s" % (driver, flavour, k, "-again" if "--case" in extra else "")
        self.out = os.path.join(work, tag + ".json")
        self.cur = os.path.join(work, tag + ".cur")
        self.err = os.path.join(work, tag + ".err")
        self.cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (k, n),
                    "--out", self.out, "--cur", self.cur] + list(extra)
        if flavour == "memcheck": self.cmd = VALGRIND + self.cmd
        self.work = work
    def start(self):
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"),
                                  env=env_for(self.flavour), cwd=self.work, start_new_session=True)
    def wait(self, deadline):
        try:
            self.rc = self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try: os.killpg(self.p.pid, 9)
            except OSError: pass
            self.p.wait()
            self.rc = None
        return self.rc
    def current(self):
        try:
            f = open(self.cur).read().split()
            return f[0], int(f[1])
        except Exception:
            return "startup", 0
    def data(self):
        try: return json.load(open(self.out))
        except Exception: return None
    def errtail(self, n=6000):
        try:
            s = open(self.err, errors="replace").read()
            i = min([x for x in (s.find("ERROR: AddressSanitizer"), s.find("runtime error:"), s.find("WARNING: ThreadSanitizer"), s.find("ninitialised"), s.find("== Invalid")) if x >= 0] or [max(0, len(s) - n)])
            return s[max(0, i - 300): i + n]
        except Exception:
            return ""

def crash_key(err, rc):
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Syscall param|Jump to the invalid|Source and destination overlap|Uninitialised byte|Process terminating)", err)
    if m:
        fr = re.search(r"(?:at|by) 0x\w+: [^\n]*\(((?!stl_|std_|bits|invoke|new_alloc|vector|atomic|basic_|functional)[\w.]+\.[ch]pp):(\d+)\)", err[m.start():])
        return "memcheck:%s:%s" % (m.group(1).replace(" ", "_"), fr.group(1) if fr else "?")
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", err)
    if m:
        what = m.group(2)
        fn = re.search(r"SUMMARY: \w+: \S+ \S*?([\w.]+):(\d+)", err)
        return "sanitizer:%s:%s" % (what, fn.group(1) if fn else "?")
    m = re.search(r"([\w./]+):\d+:\d+: runtime error: ([a-z ]+)", err)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), m.group(2).strip().replace(" ", "_"))
    if rc is not None and rc < 0:
        return "signal:%d" % -rc
    return "abnormal-exit:%s" % rc

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    known = load_known(prop)
    viols = []      # dicts: key, detail, replay info
    counters, distinct, samples = {}, {}, []
    work = tempfile.mkdtemp(prefix="uscada-%s-" % prop)
    inconclusive, notes = [], []
    try:
        stop = t0 + (700 if tier == "quick" else 6000)
        args = [a for k in known for a in ("--known", k)]
        def fresh_in(d): return bool(d) and any(v["key"] not in known for v in d["violations"])
        for run in PLAN[prop]["runs"]:
            flavour, driver, nsh = run[:3]
            sub = run[3] if len(run) > 3 else 1          # only every sub-th case
            rargs = args + (list(run[4]) if len(run) > 4 else [])
            if flavour == "memcheck" and not have_valgrind():
                notes.append("valgrind does not run here: memcheck part skipped")
                continue
            if any(v["key"] not in known for v in viols): break    # the verdict is known
            try:
                exe = vbuild.build(flavour, driver)
            except SystemExit:
                print("build of driver failed", file=sys.stderr)
                sys.exit(2)
            deadline = stop if flavour != "memcheck" else min(stop, time.time() + (200 if tier == "quick" else 1500))
            shards = [Shard(exe, flavour, driver, prop, seed, tier, (k * sub + seed) % (nsh * sub), nsh * sub, work, rargs) for k in range(nsh)]
            for s in shards: s.start()
            left = list(shards)
            while left and time.time() < deadline:
                for s in list(left):
                    if s.p.poll() is not None:
                        left.remove(s)
                        # once one shard has an alarm the others get a minute to finish
                        if s.p.returncode not in (0, 3) or (s.p.returncode == 3 and fresh_in(s.data())):
                            deadline = min(deadline, time.time() + 60)
                time.sleep(0.05)
            for s in shards: s.wait(0)
            again = 0
            for s in shards:
                d = s.data()
                if d:
                    if flavour == "memcheck": counters["memcheck_cases"] = counters.get("memcheck_cases", 0) + d["counters"].get("cases", 0)
                    for k, v in d["counters"].items():
                        if k.startswith("max_"): counters[k] = max(counters.get(k, 0), v)
                        else: counters[k] = counters.get(k, 0) + v
                    for k, v in d["distinct"].items(): distinct.setdefault(k, set()).update(v)
                    samples += d["samples"]
                    for v in d["violations"]:
                        viols.append(dict(v, flavour=flavour, driver=driver, err=""))
                if s.rc in (0, 3):
                    if s.rc == 3 and not (d and d["violations"]):
                        viols.append(dict(suite="?", case=0, key="lost-report", detail="driver failed without report", trace="", flavour=flavour, driver=driver, err=s.errtail()))
                    continue
                suite, case = s.current()
                if flavour == "memcheck" and (s.rc is None or not crash_key(s.errtail(), s.rc).startswith("memcheck:")):
                    notes.append("memcheck %s/%s shard %d ended at case %d (status %s)" % (driver, suite, s.k, case, s.rc))
                    continue
                if s.rc is None:
                    if any(v["key"] not in known for v in viols) or deadline < stop:
                        inconclusive.append("%s/%s shard %d stopped at case %d: the verdict is known" % (driver, suite, s.k, case))
                        continue
                    if again == 2:
                        inconclusive.append("%s/%s shard %d stopped at case %d after %d s" % (driver, suite, s.k, case, stop - t0))
                        continue
                    again += 1
                    # hang or overload: run the case alone once more before believing it
                    r = Shard(exe, flavour, driver, prop, seed, tier, s.k, nsh * sub, work, args + ["--suite", suite, "--case", str(case)])
                    r.start(); r.wait(time.time() + 75)
                    if r.rc is None:
                        viols.append(dict(suite=suite, case=case, key="hang:%s" % suite, detail="case does not finish (twice)", trace="", flavour=flavour, driver=driver, err=r.errtail()))
                    elif r.rc == 0:
                        inconclusive.append("%s/%s shard %d stopped at case %d after %d s" % (driver, suite, s.k, case, stop - t0))
                    else:
                        d2 = r.data() or {"violations": []}
                        for v in d2["violations"]:
                            viols.append(dict(v, flavour=flavour, driver=driver, err=""))
                        if not d2["violations"]:
                            e = r.errtail()
                            viols.append(dict(suite=suite, case=case, key=crash_key(e, r.rc), detail="process died", trace="", flavour=flavour, driver=driver, err=e))
                    continue
                e = s.errtail()
                viols.append(dict(suite=suite, case=case, key=crash_key(e, s.rc), detail="process died (status %s)" % s.rc, trace="", flavour=flavour, driver=driver, err=e))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    fresh, seen_known = [], {}
    for v in viols:
        if v["key"] in known: seen_known[v["key"]] = v
        else: fresh.append(v)
    # a run that observed nothing decides nothing
    if not fresh and not inconclusive:
        for need in PLAN[prop]["need"]:
            if counters.get(need, 0) == 0:
                fresh.append(dict(suite="coverage", case=0, key="nothing-observed:" + need, detail="monitor saw no '%s' event" % need, trace="", flavour="-", driver="-", err=""))
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], v["detail"][:160]))

    rdir = os.path.join(VERIF, "replays")
    lines = []
    bykey = {}
    for v in fresh: bykey.setdefault(v["key"], v)
    for key, v in list(bykey.items())[:10]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.txt" % (prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\ndetail: %s\nsuite: %s case: %s seed: %d tier: %s\n" % (prop, key, v["detail"], v["suite"], v["case"], seed, tier))
            f.write("rerun: %s$(python3 %s/bin/vbuild.py %s %s) --prop %s --seed %d --tier %s --suite %s --case %s --out /dev/stdout\n" % (" ".join(VALGRIND) + " " if v["flavour"] == "memcheck" else "", VERIF, v["flavour"], v["driver"], prop, seed, tier, v["suite"], v["case"]))
            f.write("\n--- trace ---\n%s\n--- stderr ---\n%s\n" % (v["trace"], v["err"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s [%s#%s] %s" % (prop, key, v["suite"], v["case"], v["detail"][:300]))

    dk = PLAN[prop]["distinct"]
    nd = min(len(distinct.get(dk, ())), int(counters.get("cases", 0)))
    ev = dict(property=prop, tier=tier, seed=seed, level=PLAN[prop]["level"],
              coverage=dict(evaluations=int(counters.get("cases", 0)), distinct_nontrivial=nd, rule=PLAN[prop]["rule"],
                            samples=samples[:5] or ["(none)"], observed={k: int(v) for k, v in sorted(counters.items())},
                            distinct_kinds={k: len(v) for k, v in distinct.items()}, inconclusive=inconclusive, notes=notes),
              assumptions=ASSUME.get("*", []) + ASSUME.get(prop, []),
              wall_s=round(time.time() - t0, 1), violations=len(bykey))
    ev["coverage"]["violation_keys"] = sorted(bykey)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines: print(l)
    print("%s %s: %d cases, %d checks, %d distinct, %.1f s%s" % (prop, tier, counters.get("cases", 0), counters.get("checks", 0), nd, time.time() - t0,
          " INCONCLUSIVE " + "; ".join(inconclusive) if inconclusive else ""))
    sys.exit(1 if fresh else 0)

if __name__ == "__main__":
    main()
