"""Checks that the tools are there and that every specification parses, and builds the harness once."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import check
c = check.Check("setup", "quick")
c.start_build()
bad = 0
for f in sorted(os.listdir(R + "/spec")):
    if f.endswith(".tla"):
        r = subprocess.run(["tla-sany", f], cwd=R + "/spec", capture_output=True, text=True)
        if r.returncode != 0: print("does not parse:", f, r.stdout[-800:]); bad = 1
try: c.wait_build()
except check.ToolError as e: print(e); bad = 1
sys.exit(bad)
