"""Report planted bugs whose patch removes only lines added by our own /repo commits."""
import subprocess, pathlib, re
base = subprocess.run("git -C /repo log --format='%H %s'", shell=True, capture_output=True, text=True).stdout.splitlines()
b = next(l.split()[0] for l in base if not l.split(" ", 1)[1].startswith("fix:"))
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    cur, minus, ok = None, 0, 0
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- a/"):
            cur = set(x.strip() for x in subprocess.run(["git", "-C", "/repo", "show", b + ":" + l[6:]], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            minus += 1
            ok += l[1:].strip() in cur and bool(l[1:].strip())
    if minus and not ok:
        print(d.name, "changes only our own lines")
    elif not minus:
        print(d.name, "(insertions only)")
