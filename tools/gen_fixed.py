"""Refresh the `fixed:` lines of KNOWN_FINDINGS.txt from /repo's fix commits (development tool). Property per commit: tools/fixmap.json {subject: property}."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(f"{V}/tools/fixmap.json"))
lines = [l for l in open(f"{V}/KNOWN_FINDINGS.txt") if not l.startswith("fixed:")]
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in out.splitlines():
    h, _, s = l.partition(" ")
    if s.startswith("fix:"):
        s = s[5:].strip()
        lines.append(f"fixed: property={m.get(s, '??')} {h} {s}\n")
        if s not in m:
            print("no property for", s)
open(f"{V}/KNOWN_FINDINGS.txt", "w").writelines(lines)
