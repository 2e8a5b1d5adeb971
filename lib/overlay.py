#!/usr/bin/env python3
"""overlay.py REPO VERIF WORK ID: write WORK/overlay.json and WORK/build.sh for one check."""
import json, os, re, shutil, sys
repo, verif, work, pid = sys.argv[1:5]
sys.path.insert(0, os.path.join(verif, "lib"))
from suites import SUITES
s = SUITES[pid]
rep = {}
for root, dirs, files in os.walk(os.path.join(verif, "mc")):
    rel = os.path.relpath(root, os.path.join(verif, "mc"))
    top = rel.split(os.sep)[0]
    for f in files:
        if f.endswith(".go"):
            rep[os.path.join(repo, "verifmc", rel, f)] = os.path.join(root, f)
json.dump({"Replace": rep}, open(os.path.join(work, "overlay.json"), "w"))
out = ["set -e", f"export CHECK_ID={pid}"]
ov = f"{work}/overlay.json"
flags = s.get("flags", "")
if s.get("modfile"):
    # a copy of go.mod that allows type parameters (in the harness)
    mod = open(os.path.join(repo, "go.mod")).read()
    m = re.search(r"^go 1\.(\d+)$", mod, re.M)
    if m and int(m.group(1)) < 20:
        mod = mod[:m.start()] + "go 1.20" + mod[m.end():]
    open(os.path.join(work, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(repo, "go.sum"), os.path.join(work, "go.sum"))
    flags += f" -modfile={work}/go.mod"
if s.get("instrument"):
    # source-to-source instrumentation of the current tree, added to the overlay
    out.append(f"go build -overlay {ov} -o {work}/instr.exe ./verifmc/instr")
    out.append(f"{work}/instr.exe -repo {repo} -in {ov} -out {work}/overlay2.json -dir {work}/instr.d {s['instrument']}")
    ov = f"{work}/overlay2.json"
out.append(f"go build {flags} -overlay {ov} -o {work}/suite ./verifmc/{s['dir']}")
if s.get("bin"):
    out.append(f"go build -o {work}/ocibuild .")
    out.append(f"export OCIBUILD={work}/ocibuild")
for c in s.get("pre", []):
    out.append(c.format(verif=verif, work=work, repo=repo))
out.append("set +e")
open(os.path.join(work, "build.sh"), "w").write("\n".join(out) + "\n")
