#!/usr/bin/env python3
"""tools/newseed.py ID PROPERTY NEEDS WHAT < demo_test.go : record /repo's uncommitted diff as a planted bug, undo it."""
import json, os, subprocess, sys
i, prop, needs, what = sys.argv[1:5]
d = f"/verif/seeded/{i}"
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
assert diff.strip(), "no change in /repo"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
src = sys.stdin.read()
if src.strip():
    open(d + "/demo_test.go.txt", "w").write(src)
    open(d + "/demo.sh", "w").write(open("/verif/tools/demo.sh").read())
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
