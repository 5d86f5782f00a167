"""Writes the planted bugs of tools/bugs.py to seeded/ and confirms each of them: python3 tools/seed.py [ID...]

Applies each change to /repo's working tree for as long as it is confirmed and undoes it. No check reads this or seeded/."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from bugs import BUGS  # noqa

SH = '''#!/bin/bash
# run with cwd = the repository
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRE = '''import os
import sys

sys.path.insert(0, os.getcwd())
'''


def sh(*a):
    return subprocess.run(a, cwd="/repo", capture_output=True, text=True)


def undo():
    sh("git", "checkout", "--", ".")


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def main(ids):
    assert not sh("git", "status", "--porcelain").stdout.strip(), "dirty /repo"
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        try:
            for f, old, new in b["edits"]:
                p = "/repo/diamondback/" + f
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git", "diff").stdout)
            sh("bash", "/opt/vp/build.sh")
            r = sh("bash", "/opt/vp/test.sh", "/tmp/seed.json")
            t = json.load(open("/tmp/seed.json"))
            failed = t.get("failed") or [k for k, v in t.items() if v in ("failed", "fail")] if isinstance(t, dict) else t
            k = sh("bash", d + "/demo.sh")
            print(b["id"], b["property"], "tests failed:", failed, "demo patched rc", k.returncode, (k.stderr.strip().split("\n") or [""])[-1][:150])
        finally:
            undo()
        k = sh("bash", d + "/demo.sh")
        print("   clean rc", k.returncode, k.stderr[-300:] if k.returncode else "")
    sh("bash", "/opt/vp/build.sh")


main(sys.argv[1:])
