#!/usr/bin/env python3
"""seed.py add <id> <property> <dir-with main.rs, edit.py or patch.diff> ...
   seed.py try <id>...   confirm (in a scratch copy): applies, builds, passes the tests, demo 0 / nonzero
   seed.py check <id>... [--prop Pxx]   apply to /repo, run the property's quick check, undo"""
import json, os, shutil, subprocess, sys, tempfile, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = R + "/seeded"
def run(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def try_(i):
    d = f"{S}/{i}"
    # refresh the shared files
    for f in ("demo.sh", "Cargo.toml.in"): shutil.copy(f"{R}/tools/demo/{f}", d)
    if "mod server" in open(f"{d}/main.rs").read():
        for f in ("wire.rs", "server.rs"): shutil.copy(f"{R}/harness/src/{f}", d)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        run(f"cp -a /repo {t}/repo")
        r = run("bash " + d + "/demo.sh", cwd=f"{t}/repo")
        if r.returncode != 0: print(i, "DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-1500:]); return
        r = run(f"git apply {d}/patch.diff", cwd=f"{t}/repo")
        if r.returncode: print(i, "PATCH", r.stderr); return
        r = run("bash " + d + "/demo.sh", cwd=f"{t}/repo")
        if "could not compile" in r.stderr: print(i, "DOES NOT COMPILE", r.stderr[-2500:]); return
        print(i, "demo with patch:", r.returncode, (r.stdout + r.stderr)[-200:].strip().replace("\n", " | "))
    finally: shutil.rmtree(t, ignore_errors=True)
    # the test suite, on /repo itself (paths in test.sh)
    r = run(f"git -C /repo apply {d}/patch.diff")
    try:
        run("bash /opt/vp/build.sh")
        run("bash /opt/vp/test.sh /tmp/seed-t.json")
        t = json.load(open("/tmp/seed-t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        m = set(b["stable"]) - set(t["passed"])
        print(i, "tests:", "ok" if not m else f"FAIL {m}")
    finally:
        run("git -C /repo checkout -- .")
def check(i, prop=None):
    d = f"{S}/{i}"; prop = prop or json.load(open(d + "/meta.json"))["property"]
    r = run(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(i, "PATCH", r.stderr); return
    try:
        t = time.time()
        r = run(f"python3 check.py {prop} quick", cwd=R)
        print(i, prop, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", r.stdout.strip()[:300].replace("\n", " | "), flush=True)
    finally: run("git -C /repo checkout -- .")
a = sys.argv
ids = [x for x in a[2:] if not x.startswith("-") and not x.startswith("P")] or sorted(os.listdir(S))
for i in ids:
    if a[1] == "try": try_(i)
    elif a[1] == "check": check(i, next((x for x in a if x.startswith("P")), None))
run("bash /opt/vp/build.sh")
