"""Run the property's quick check against every stored planted bug (development tool).

usage: run_seeded.py [ID or property ...]   JOBS=n
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def one(i):
    meta = json.load(open(f"{S}/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="bug_")
    try:
        repo = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        r = subprocess.run(["git", "apply", f"{S}/{i}/patch.diff"], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return f"{i}: patch does not apply {r.stderr[:200]}"
        env = dict(os.environ, MC_REPO=repo, VERIF_SEED="1", MC_EVIDENCE=d + "/ev", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["./check", meta["property"], "quick"], cwd=ROOT, env=env, capture_output=True, text=True, timeout=1000)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{i}: {'CAUGHT' if r.returncode == 1 and v else '*** MISSED *** rc=%d' % r.returncode} {r.stderr[-300:] if r.returncode not in (0, 1) else ''}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


want = sys.argv[1:]
ids = [i for i in sorted(os.listdir(S)) if not want or i in want or i.split("-")[0] in want]
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
