#!/usr/bin/env python3
"""Builds instrumented drivers from /repo's working tree (never from a copy).

vbuild.py FLAVOUR DRIVER  -> prints the path of the executable.
Objects are cached by content (source + every header + flags)."""
import hashlib, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("USCADA_REPO", "/repo")
SRC = os.path.join(REPO, "src", "app")
OUT = os.environ.get("USCADA_VBUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")

BASE = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w"]
FLAVOURS = {
    "asan": BASE + ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": BASE + ["-fsanitize=thread"],
    "plain": BASE,
    "memcheck": [f for f in BASE if f != "-O1"] + ["-O0"],   # run under valgrind; unoptimised so that every report is about the source
}

# link-time interposition used for fault injection / recording at the libc border
WRAPS = {
    "reactor": ["socket", "fcntl", "connect", "bind", "listen", "accept", "accept4", "epoll_ctl", "timerfd_create", "close", "write", "read", "pthread_mutex_unlock"],
    "system": ["nanosleep", "clock_nanosleep", "accept", "accept4", "bind", "connect", "close", "send", "write", "pthread_setaffinity_np", "pthread_getaffinity_np"],
}

# drivers whose source is compiled in several parts (-DPART=k) because of expensive templates
PARTS = {"codec": 8}

def sources():
    res, incs = [], []
    for d, dirs, files in os.walk(SRC):
        dirs.sort()
        if os.path.basename(d) == "ut":
            dirs[:] = []
            continue
        hdr = False
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith((".hpp", ".h")):
                hdr = True
            elif f.endswith(".cpp") and p != os.path.join(SRC, "main.cpp"):
                res.append(p)
        if hdr and os.path.basename(d) != "mock":
            incs.append(d)
    return res, incs

def headers_digest(dirs):
    h = hashlib.sha256()
    seen = []
    for root in dirs:
        for d, dd, files in os.walk(root):
            dd.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h")):
                    seen.append(os.path.join(d, f))
    for p in sorted(set(seen)):
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

def compile_one(job):
    src, obj, flags = job
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return src, r.stdout.decode(errors="replace")
    os.replace(tmp, obj)
    return src, None

def build(flavour, driver):
    srcs, incs = sources()
    flags = FLAVOURS[flavour]
    inc = ["-I" + d for d in incs]
    repo_h = headers_digest([SRC])
    harn_h = headers_digest([HARNESS])
    odir = os.path.join(OUT, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs, objs, key = [], [], hashlib.sha256()
    todo = [(s, flags + inc, repo_h) for s in srcs]
    hsrc = []
    dsrc = os.path.join(HARNESS, driver + ".cpp")
    for k in range(PARTS.get(driver, 1)):
        todo.append((dsrc, flags + inc + ["-I" + HARNESS, "-DPART=%d" % k], repo_h + harn_h))
    for e in sorted(os.listdir(HARNESS)):
        if e.startswith("lib_") and e.endswith(".cpp"):
            hsrc.append(os.path.join(HARNESS, e))
    todo += [(s, flags + inc + ["-I" + HARNESS], repo_h + harn_h) for s in hsrc]
    for s, fl, hh in todo:
        h = hashlib.sha256()
        h.update(("\0".join(fl) + s + hh).encode())
        with open(s, "rb") as fh:
            h.update(fh.read())
        o = os.path.join(odir, h.hexdigest()[:32] + ".o")
        objs.append(o)
        key.update(o.encode())
        if not os.path.exists(o):
            jobs.append((s, o, fl))
    # biggest first for better packing
    jobs.sort(key=lambda j: (not j[0].startswith(HARNESS), -os.path.getsize(j[0])))
    errs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for s, e in ex.map(compile_one, jobs):
            if e:
                errs.append((s, e))
    if errs:
        for s, e in errs[:5]:
            sys.stderr.write("COMPILE ERROR %s\n%s\n" % (s, e[-3000:]))
        raise SystemExit(2)
    wraps = ["-Wl,--wrap=" + w for w in WRAPS.get(driver, [])]
    key.update(" ".join(wraps).encode())
    exe = os.path.join(OUT, "%s-%s-%s" % (driver, flavour, key.hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + objs + wraps + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("LINK ERROR\n" + r.stdout.decode(errors="replace")[-4000:])
            raise SystemExit(2)
        os.replace(tmp, exe)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
