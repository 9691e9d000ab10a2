"""Check that the checks stay quiet on edits that keep the behaviour.

usage: refactor.py SPEC.py [ID ...]   (SPEC: REFACTORS list of dicts id,
props, edits [(file, old, new)])
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.argv_, sys.argv = sys.argv, ["x"]
from importlib.util import module_from_spec, spec_from_file_location  # noqa

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def main(argv):
    ns = {}
    exec(open(argv[0]).read(), ns)
    for s in ns["REFACTORS"]:
        if argv[1:] and s["id"] not in argv[1:]:
            continue
        top = tempfile.mkdtemp(prefix="refac_")
        try:
            sc = os.path.join(top, "repo")
            shutil.copytree("/repo", sc, ignore=shutil.ignore_patterns(
                "__pycache__", ".pytest_cache"))
            bad = None
            for f, old, new in s["edits"]:
                p = os.path.join(sc, "rigid_body_motion", f)
                t = open(p).read()
                if old not in t:
                    bad = "no match in %s: %r" % (f, old)
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(s["id"], bad, flush=True)
                continue
            e = dict(os.environ, PYTHONPATH=sc, PYTHONDONTWRITEBYTECODE="1",
                     MPLBACKEND="Agg")
            subprocess.run([PY, "-m", "pytest", "-q", "-p",
                            "no:cacheprovider", "-o", "junit_family=xunit2",
                            "--junitxml", top + "/j.xml", "tests"], cwd=sc,
                           env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.STDOUT)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py",
                            top + "/o.json", "junit:" + top + "/j.xml"],
                           stdout=subprocess.DEVNULL)
            miss = STABLE - set(json.load(open(top + "/o.json"))["passed"])
            if miss:
                print(s["id"], "TESTS FAIL", sorted(miss)[:3], flush=True)
                continue
            vc = top + "/verif"
            shutil.copytree(V, vc, ignore=shutil.ignore_patterns(
                "seeded", ".git", "__pycache__"))
            for p in s["props"]:
                t0 = time.time()
                r = subprocess.run([vc + "/check", p], cwd=vc, text=True,
                                   env=dict(os.environ, RBM_REPO=sc),
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                ev = json.load(open(vc + "/evidence/%s.json" % p))
                line = [x for x in r.stdout.splitlines()
                        if x.startswith(p + " ")]
                z = "undecided=0 unsupported=0 limit=0 errors=0 mismatch=0 "
                ok = r.returncode == 0 and line and z in line[0]
                print(s["id"], p, "ok" if ok else "LOOK exit=%d %s" % (
                    r.returncode, r.stdout[-1500:]),
                    "%.0fs" % (time.time() - t0), flush=True)
                del ev
        finally:
            shutil.rmtree(top)


main(sys.argv_[1:])
