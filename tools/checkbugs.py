"""Which planted bugs no longer apply, or only touch lines that the fix commits added."""
import os, subprocess, sys
BASE = "d7a268a"
R = "/repo"
def show(f):
    return set(x.strip() for x in subprocess.run(["git", "-C", R, "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.splitlines())
for b in sorted(os.listdir("/verif/seeded")):
    p = f"/verif/seeded/{b}/patch.diff"
    if subprocess.run(["git", "-C", R, "apply", "--check", p], capture_output=True).returncode:
        print(b, "does not apply")
        continue
    ok, f, lines = False, None, open(p).read().splitlines()
    for k, x in enumerate(lines):
        if x.startswith("+++ b/"):
            base = show(x[6:])
        elif x.startswith("---") or x.startswith("@@"):
            pass
        elif x.startswith("-") and x[1:].strip() and not x[1:].strip().startswith("#") and x[1:].strip() in base:
            ok = True
        elif x.startswith("+") and x[1:].strip() and lines[k - 1][:1] == " ":
            after = next((y for y in lines[k:] if not y.startswith("+")), "")
            if lines[k - 1][1:].strip() in base and after[1:].strip() in base:
                ok = True
    if not ok:
        print(b, "touches only fixes")
