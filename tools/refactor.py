"""Apply behaviour-preserving edits to a scratch copy of /repo and confirm the checks stay quiet
(development tool, not used by any check).

usage: refactor.py SPECFILE [ID ...]   SPECFILE defines REFS, a list of (id, [(path, old, new)], [checks]).
"""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(r):
    id, edits, checks = r
    d = tempfile.mkdtemp(prefix="ref_")
    try:
        repo = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for path, old, new in edits:
            f = os.path.join(repo, "gerrychain", path)
            s = open(f).read()
            if s.count(old) != 1:
                return "%s: EDIT matches %d times in %s: %r" % (id, s.count(old), path, old[:50])
            open(f, "w").write(s.replace(old, new))
        out = [id]
        if os.environ.get("TESTS"):
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov", "tests"],
                               cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
            out.append("tests " + t.stdout.strip().splitlines()[-1])
        for c in checks:
            try:
                p = subprocess.run([ROOT + "/check", c], cwd=ROOT, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, MC_REPO=repo, VERIF_SEED="7", MC_EVIDENCE=d))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc, p = "timeout", None
            out.append("%s:%s" % (c, "quiet" if rc == 0 else "*** %s ***" % rc))
            if rc != 0 and p:
                out.append("\n" + p.stdout[-1500:] + p.stderr[-1500:])
        return " ".join(out)
    finally:
        shutil.rmtree(d)


refs = runpy.run_path(sys.argv[1])["REFS"]
if sys.argv[2:]:
    refs = [r for r in refs if r[0] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for line in ex.map(one, refs):
        print(line, flush=True)
