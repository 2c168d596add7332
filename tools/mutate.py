#!/usr/bin/env python3
"""Run checks against small textual changes of the repository, in scratch copies.

mutate.py FILE.json [name...]   FILE: [{"name","file","old","new","props":[...]}]
Prints, per change, which of the listed properties' checks catch it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    tmp = tempfile.mkdtemp(prefix="mut.")
    try:
        repo = os.path.join(tmp, "repo")
        os.makedirs(repo)
        shutil.copytree("/repo/celest", os.path.join(repo, "celest"))
        edits = m.get("edits") or [[m["file"], m["old"], m["new"]]]
        for f, old, new in edits:
            path = os.path.join(repo, f)
            s = open(path).read()
            if s.count(old) < 1:
                return m["name"], {"!": "text not found in " + f}
            open(path, "w").write(s.replace(old, new, 1))
        ver = os.path.join(tmp, "verif")
        os.makedirs(os.path.join(ver, "evidence"))
        for d in ("harness", "spec"):
            os.symlink(os.path.join(VERIF, d), os.path.join(ver, d))
        shutil.copy(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), ver)
        res = {}
        for p in m["props"]:
            env = dict(os.environ, CELEST_REPO=repo, VERIF_EVIDENCE=os.path.join(ver, "evidence"))
            r = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "check.py"), p, "--tier", "quick"],
                               env=env, capture_output=True, text=True)
            lines = [x for x in r.stdout.splitlines() if x.startswith("violated:")]
            res[p] = (r.returncode, [x.split()[1] for x in lines] if r.returncode == 1 else r.stdout[-300:] if r.returncode else "MISSED")
        return m["name"], res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ms = json.load(open(sys.argv[1]))
    if sys.argv[2:]:
        ms = [m for m in ms if m["name"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for name, res in ex.map(one, ms):
            print(name, res, flush=True)


main()
