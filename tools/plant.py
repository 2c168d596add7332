#!/usr/bin/env python3
"""Make seeded bugs: plant.py DEFS.py [id...]

DEFS.py defines BUGS, a list of dicts: id, property, edits [[file, old, new]],
demo (python source run with cwd at the repository), needs, breaks.
A bug is kept in /verif/seeded/<id> only if its patch changes original lines,
the stable tests pass with it and the demo tells the two trees apart.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

BASE = "1b8ad2d"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME="/root", XDG_CONFIG_HOME="/opt/vp/astropy-config",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO = """#!/bin/sh
# run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd), capture_output=True, text=True, timeout=timeout)


def make(b):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "text found %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        # the lines taken out are original ones
        for f in {e[0] for e in b["edits"]}:
            blame = sh(["git", "blame", "-s", "HEAD", "--", f], repo).stdout.splitlines()
            base = sh(["git", "rev-parse", BASE], repo).stdout[:7]
            line, name, bad, removed = 0, None, [], 0
            for x in diff.splitlines():
                m = re.match(r"@@ -(\d+)", x)
                if x.startswith("--- "):
                    name = x[6:]
                elif m:
                    line = int(m.group(1))
                elif name == f:
                    if x.startswith("-"):
                        removed += 1
                        if not blame[line - 1].lstrip("^").startswith(base):
                            bad.append(blame[line - 1])
                        line += 1
                    elif x.startswith(" "):
                        line += 1
            if bad and len(bad) == removed:
                return b["id"], "changes only lines of our commits:\n" + "\n".join(bad)
            if bad:
                print(b["id"], "note: also changes lines of ours:", bad)
        demo = os.path.join(tmp, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        open(os.path.join(demo, "demo.py"), "w").write(textwrap.dedent(b["demo"]).lstrip())
        clean = sh(["sh", os.path.join(demo, "demo.sh")], "/repo")
        broken = sh(["sh", os.path.join(demo, "demo.sh")], repo)
        if clean.returncode != 0:
            return b["id"], "demo fails on the unchanged tree:\n" + (clean.stdout + clean.stderr)[-1500:]
        if broken.returncode == 0:
            return b["id"], "demo passes with the change"
        xml = os.path.join(tmp, "j.xml")
        sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300",
            "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--tb=short", "--junitxml=" + xml, "tests"], repo)
        out = os.path.join(tmp, "o.json")
        sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + xml], repo)
        lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(out))["passed"])
        if lost:
            return b["id"], "tests notice: " + ", ".join(sorted(lost)[:5])
        d = os.path.join("/verif/seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(demo, f), d)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        return b["id"], "kept; demo says: " + (broken.stdout + broken.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for name, text in ex.map(make, bugs):
            print(name, "-", text, flush=True)


main()
