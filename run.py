#!/usr/bin/env python3
"""Build the check of one property from /repo's current working tree and run it.

usage: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUB]
Exit status 0: held on everything explored; 1: VIOLATION line printed; 2: could not build.
"""
import argparse, concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS, LIBS

def repo(p): return os.path.join(REPO, p)

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale")
    ap.add_argument("--workers", default="8")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    c = CHECKS[a.id]
    t0 = time.time()
    bdir = os.path.join(HERE, ".build", a.id)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    srcs = [os.path.join(HERE, "engine", "pbt_main.cpp")]
    for s in c["sources"]:
        srcs += sorted(glob.glob(os.path.join(HERE, "checks", s)))
    for lib in c.get("libs", []):
        for s in LIBS[lib]:
            m = sorted(glob.glob(repo(s)))
            srcs += m
    inc = ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "checks")]
    for d in c.get("include", ["eo/src"]):
        inc.append("-I" + (d if d.startswith("/") else repo(d)))
    base = ["g++", "-std=c++17", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
    base += c.get("opt", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-g1"])
    base += c.get("flags", [])
    cc = ["ccache"] if shutil.which("ccache") else []
    env = dict(os.environ); env["CCACHE_DIR"] = os.path.join(HERE, ".build", "ccache"); env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_NOHASHDIR"] = "1"
    def comp(i_s):
        i, s = i_s
        o = os.path.join(bdir, "%03d.o" % i)
        r = subprocess.run(cc + base + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        return s, o, r.returncode, r.stdout
    objs = []
    # largest first, so that the slowest compilations start early
    order = sorted(enumerate(srcs), key=lambda x: (not x[1].startswith(HERE), -os.path.getsize(x[1])))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, o, rc, out in ex.map(comp, order):
            if rc != 0:
                print("cannot compile", s); print(out[-6000:]); sys.exit(2)
            objs.append(o)
    exe = os.path.join(bdir, "check")
    r = sh(base + objs + ["-o", exe] + c.get("link", []))
    if r.returncode != 0:
        print("cannot link"); print(r.stdout[-6000:]); sys.exit(2)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="pbt.")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cmd = [exe, "--prop", a.id, "--tier", a.tier, "--seed", a.seed, "--scratch", scratch, "--workers", str(c.get("workers", a.workers)),
           "--replaydir", os.path.join(HERE, "replays"), "--rule", c["rule"], "--assume", c.get("assume", "the sources compile with the installed compiler as in the project's own build")]
    if "wall_limit" in c: cmd += ["--wall-limit", str(c["wall_limit"])]
    if "schedules" in c: cmd += ["--schedules", str(c["schedules"])]
    if "cpu_limit" in c: cmd += ["--cpu-limit", str(c["cpu_limit"])]
    if not a.no_evidence: cmd += ["--evidence", os.path.join(HERE, "evidence", a.id + ".json")]
    if a.replay: cmd += ["--replay", os.path.abspath(a.replay)]
    if a.only: cmd += ["--only", a.only]
    if a.scale: cmd += ["--scale", a.scale]
    if a.verbose: cmd += ["--verbose"]
    kf = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf) and not a.replay:
        for l in open(kf):
            l = l.strip()
            if l.startswith("known: property=%s " % a.id):
                print("KNOWN-FINDING: " + l[len("known: "):])
    sys.stdout.flush()
    env = dict(os.environ); env.pop("PBT_CHILD", None)
    env["VERIF_DATA"] = os.path.join(HERE, "checks"); env["VERIF_REPO"] = REPO
    try:
        rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    print("build %.1fs total %.1fs" % (tb, time.time() - t0))
    if rc not in (0, 1): rc = 2
    sys.exit(rc)

if __name__ == "__main__":
    main()
