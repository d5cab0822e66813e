"""Confirm and store planted bugs (development tool, not used by any check).

usage: plant.py SPECFILE [ID ...]

SPECFILE is a python file defining BUGS, a list of dicts with the keys id, property,
edits [(path, old, new)], demo (python source), needs, breaks.  For each one a scratch
copy of /repo is edited, the test suite and the demonstration are run on it, and the
property's quick check; the bug is stored in /verif/seeded/<id> if the tests pass and
the demonstration tells the two trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
SEEDED = os.environ.get("PLANT_OUT") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def one(bug):
    d = tempfile.mkdtemp(prefix="bug_")
    out = [bug["id"]]
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", REPO, repo], check=True)
        for path, old, new in bug["edits"]:
            f = os.path.join(repo, path)
            s = open(f).read()
            if s.count(old) != 1:
                return f"{bug['id']}: EDIT matches {s.count(old)} times in {path}: {old[:60]!r}"
            open(f, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        demo = os.path.join(d, "demo")
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write(bug["demo"])
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        clean = run(["bash", demo + "/demo.sh"], REPO, timeout=300)
        bad = run(["bash", demo + "/demo.sh"], repo, timeout=300)
        if clean.returncode != 0:
            return f"{bug['id']}: DEMO fails on clean tree\n{clean.stderr[-1500:]}"
        if bad.returncode == 0:
            return f"{bug['id']}: DEMO passes on the changed tree"
        out.append("demo ok")
        if not os.environ.get("SKIP_TESTS"):
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov",
                     "--timeout=300", "tests"], repo,
                    {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONPATH": repo})
            tail = t.stdout.strip().splitlines()[-1:] or [""]
            if t.returncode != 0:
                fails = [l for l in t.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
                return f"{bug['id']}: TESTS {tail[0]} {fails[:4]}"
            out.append("tests ok")
        dest = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        open(dest + "/patch.diff", "w").write(diff)
        open(dest + "/demo.py", "w").write(bug["demo"])
        open(dest + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(dest + "/meta.json", "w"), indent=1)
        if not os.environ.get("SKIP_CHECK"):
            ev = os.path.join(d, "ev")
            r = run(["./check", bug["property"], "quick"], "/verif", {"MC_REPO": repo, "VERIF_SEED": "1", "MC_EVIDENCE": ev}, timeout=1000)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else '*** MISSED ***'} {v[:1]} {r.stderr[-300:] if r.returncode not in (0, 1) else ''}")
        return "  ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want or b["property"] in want]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(one, bugs):
            print(r, flush=True)
