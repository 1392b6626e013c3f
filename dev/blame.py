"""do the planted changes touch lines of the original repository?"""
import re, subprocess, glob
for f in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    cur = None; ln = 0; out = []
    for l in open(f):
        if l.startswith("--- a/"): cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if cur and not l.startswith(("+++", "---", "+", "diff", "index")):
            if l.startswith("-"):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-L", f"{ln},{ln}", "--", cur], capture_output=True, text=True).stdout
                out.append(b.split()[0].startswith("^"))
            ln += 1
    print(f.split("/")[3], "removed lines original:", out)
