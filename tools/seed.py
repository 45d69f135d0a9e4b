#!/usr/bin/env python3
"""seed.py ID...  - for planted changes: apply to /repo, build, run the tests, the demo (with and without) and the property's quick check; undo."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def demo(sd):
    t = tempfile.mkdtemp(prefix="seeddemo")
    shutil.copytree(sd, t + "/d")
    for f in os.listdir(t + "/d"):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(t + "/d/" + f)
    r = sh("timeout 300 bash %s/d/demo.sh" % t, cwd="/repo")
    shutil.rmtree(t)
    return r
args = [a for a in sys.argv[1:] if not a.startswith("-")]
only_check = "-c" in sys.argv
for i in args:
    sd = os.path.join(V, "seeded", i)
    meta = json.load(open(sd + "/meta.json"))
    out = [i, meta["property"]]
    if not only_check:
        r = demo(sd); out.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
    if sh("git -C /repo apply %s/patch.diff" % sd).returncode: print(i, "DOES NOT APPLY"); continue
    try:
        if not only_check:
            r = sh("bash /opt/vp/build.sh"); out.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:]); continue
            tf = tempfile.mktemp()
            sh("bash /opt/vp/test.sh " + tf)
            base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(tf)); os.remove(tf)
            def passed(x):
                x = x.get("passed", x.get("stable", x)); return set(x if isinstance(x, list) else [k for k, v in x.items() if v in (True, "pass", "passed")])
            out.append("tests-lost=%d" % len(passed(base) - passed(res)))
            r = demo(sd); out.append("demo-bug=%d %s" % (r.returncode, r.stdout.strip()[-160:]))
        r = sh("timeout 900 python3 bin/check.py %s quick" % meta["property"], cwd=V)
        caught = r.returncode == 1 and ("VIOLATION property=%s" % meta["property"]) in r.stdout
        out.append("check=%d %s" % (r.returncode, "CAUGHT" if caught else "MISSED"))
        out.append(" | ".join(l.strip()[:110] for l in r.stdout.splitlines()[:2]))
    finally:
        sh("git -C /repo checkout -- .")
    print(" ".join(out), flush=True)
