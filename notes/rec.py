"""Record fix commits: rec.py Pnn 'commit message' ... (looks up hash by message; text = message without 'fix: ')."""
import os, subprocess, sys
log = dict((l.split(" ", 1)[1], l.split(" ", 1)[0]) for l in subprocess.check_output(["git", "-C", os.environ.get("WREPO", "/tmp/w/repo"), "log", "--format=%h %s"], text=True).splitlines())
have = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")).read()
pid = sys.argv[1]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "a") as f:
    for m, h in reversed(list(log.items())):
        if m.startswith("fix: ") and h not in have and any(k in m for k in sys.argv[2:]):
            f.write(f"fixed: property={pid} {h} {m[5:]}\n")
            print(pid, h, m)
