#!/usr/bin/env python3
"""Parse every specification and import the implementation once (nothing is built)."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp(prefix="celestmbv.")
try:
    mods = sorted(glob.glob(os.path.join(here, "..", "spec", "*.tla")))
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=" + tmp)
    r = subprocess.run(["tla-sany"] + [os.path.abspath(m) for m in mods], cwd=os.path.join(here, "..", "spec"),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0 or "Fatal errors" in r.stdout or "*** Errors" in r.stdout:
        print(r.stdout[-3000:], r.stderr[-2000:])
        sys.exit(1)
    env = dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", XDG_CONFIG_HOME="/opt/vp/astropy-config")
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import celest.satellite"], env=env, cwd=tmp, check=True)
    print("%d specifications parsed" % len(mods))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
