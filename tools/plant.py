"""Plant bugs: verify each in a scratch copy and keep it under seeded/.

usage: plant.py SPEC.py [ID ...] [--check-only]

SPEC.py defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)],
needs, breaks, demo (python source; asserts what must hold).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "214bee4"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/sh
# exit 0 when the property holds on the installed rigid_body_motion
d=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \\
  /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def run(cmd, cwd, scratch, timeout=900, **env):
    e = dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def original_lines(scratch, patch):
    """True if some removed/context-changed line exists in the base commit."""
    cur = None
    ok = False
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = subprocess.run(
                ["git", "-C", "/repo", "show", BASE + ":" + line[6:]],
                stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:] not in cur:
                return False
            ok = True
    return ok


def plant(s, check_only=False):
    msg = []
    top = tempfile.mkdtemp(prefix="plant_")
    try:
        sc = os.path.join(top, "repo")
        shutil.copytree("/repo", sc, ignore=shutil.ignore_patterns(
            "__pycache__", ".pytest_cache"))
        d = os.path.join(V, "seeded", s["id"])
        dd = os.path.join(top, "demo")
        if not check_only:
            for f, old, new in s["edits"]:
                p = os.path.join(sc, f)
                t = open(p).read()
                if t.count(old) != 1:
                    return "%s: %d matches in %s of %r" % (
                        s["id"], t.count(old), f, old)
                open(p, "w").write(t.replace(old, new))
            patch = subprocess.run(["git", "diff"], cwd=sc, text=True,
                                   stdout=subprocess.PIPE).stdout
            if not original_lines(sc, patch):
                msg.append("NOT-ORIGINAL-LINES?")
            os.makedirs(dd)
            open(os.path.join(dd, "demo.py"), "w").write(s["demo"])
            open(os.path.join(dd, "demo.sh"), "w").write(DEMO_SH)
            r0 = run(["sh", os.path.join(dd, "demo.sh")], "/repo", "/repo",
                     300)
            r1 = run(["sh", os.path.join(dd, "demo.sh")], sc, sc, 300)
            if r0.returncode != 0:
                return "%s: demo fails unpatched\n%s" % (
                    s["id"], r0.stdout[-1500:])
            if r1.returncode == 0:
                return "%s: demo passes with the patch" % s["id"]
            rt = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                      "-o", "junit_family=xunit2", "--junitxml",
                      os.path.join(top, "j.xml"), "tests"], sc, sc)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py",
                            os.path.join(top, "o.json"),
                            "junit:" + os.path.join(top, "j.xml")])
            miss = STABLE - set(
                json.load(open(os.path.join(top, "o.json")))["passed"])
            if miss:
                return "%s: tests fail: %s" % (s["id"], sorted(miss)[:3])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(dd, f), d)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            msg.append("kept")
        else:
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")],
                           cwd=sc, check=True)
        vc = os.path.join(top, "verif")
        shutil.copytree(V, vc, ignore=shutil.ignore_patterns(
            "seeded", ".git", "__pycache__"))
        t0 = __import__("time").time()
        r = run([os.path.join(vc, "check"), s["prop"]], vc, "",
                RBM_REPO=sc)
        dt = __import__("time").time() - t0
        hit = "VIOLATION property=%s" % s["prop"] in r.stdout
        msg.append("%s exit=%d %.0fs" % (
            "CAUGHT" if r.returncode == 1 and hit else "MISSED",
            r.returncode, dt))
        if not hit:
            msg.append(r.stdout[-600:])
        return s["id"] + " [" + s["prop"] + "]: " + " ".join(msg)
    finally:
        shutil.rmtree(top)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--check-only" in sys.argv:
        ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
        seeds = []
        for i in ids:
            m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
            seeds.append({"id": i, "prop": m["property"]})
        co = True
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        seeds = [s for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]]
        co = False
    with ThreadPoolExecutor(2) as ex:
        for m in ex.map(lambda s: plant(s, co), seeds):
            print(m, flush=True)


main()
