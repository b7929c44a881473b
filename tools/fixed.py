"""Appends 'fixed:' records for /repo fix commits that are not in known_findings.txt yet. usage: fixed.py <commit>=<property> ..."""
import subprocess, sys
F = "/verif/known_findings.txt"
have = open(F).read()
log = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "d9c91fa..HEAD"], text=True).splitlines())
with open(F, "a") as f:
    for a in sys.argv[1:]:
        c, p = a.split("=")
        c = next(k for k in log if k.startswith(c[:7]) or c.startswith(k))
        if f" {c} " not in have:
            f.write(f"fixed: property={p} {c} {log[c].replace('fix: ', '')}\n")
print("unrecorded:")
have = open(F).read()
for c, s in log.items():
    if s.startswith("fix:") and f" {c} " not in have:
        print(c, s)
