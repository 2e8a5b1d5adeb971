#!/usr/bin/env python3
"""tools/seed.py [-n] [-t TIER] ID...: confirm planted bugs in a scratch copy of /repo and run their property's check
against it.  -n: skip build/test/demo confirmation.  Prints one line per bug."""
import json, os, subprocess, sys, shutil, tempfile, time
verif = "/verif"
args = sys.argv[1:]
skip = "-n" in args
tier = "quick"
if "-t" in args:
    i = args.index("-t"); tier = args[i+1]; del args[i:i+2]
nocheck = "-d" in args
args = [a for a in args if a not in ("-n", "-d")]
ids = args or sorted(os.listdir(f"{verif}/seeded"))
def sh(cmd, cwd, timeout=1200):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
bad = 0
for i in ids:
    d = f"{verif}/seeded/{i}"
    if not os.path.exists(d + "/patch.diff"):
        continue
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix=f"seed-{i}.", dir="/tmp")
    copy = tmp + "/repo"
    msgs = []
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = tmp + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        if not skip:
            r = sh(f"bash {demo}/demo.sh", copy)
            if r.returncode != 0:
                msgs.append("DEMO FAILS ON CLEAN: " + r.stdout[-800:])
        r = sh(f"git apply {d}/patch.diff", copy)
        if r.returncode != 0:
            msgs.append("PATCH DOES NOT APPLY: " + r.stdout[-500:])
            print(i, *msgs); bad += 1
            continue
        if not skip:
            r = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; bash %s/b.sh" % (copy, tmp, tmp), copy)
            if r.returncode != 0:
                msgs.append("BUILD: " + r.stdout[-800:])
            r = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json" % (copy, tmp, tmp, tmp), copy)
            try:
                passed = set(json.load(open(tmp + "/o.json"))["passed"])
                miss = base - passed
                if miss:
                    msgs.append("TESTS FAIL: %s" % sorted(miss)[:5])
            except Exception as e:
                msgs.append("TESTS: %s" % e)
            r = sh(f"bash {demo}/demo.sh", copy)
            if r.returncode == 0:
                msgs.append("DEMO PASSES WITH PATCH")
        t0 = time.time()
        if nocheck:
            print(f"{i}: {' | '.join(msgs) or 'confirmed'}")
            bad += bool(msgs)
            continue
        p = meta["property"]
        r = sh(f"VERIF_REPO={copy} {verif}/check.sh {p} {tier}", verif, 3600)
        caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        if not caught:
            bad += 1
        fl = [l for l in r.stdout.splitlines() if l.startswith("FAIL")][:1]
        print(f"{i} [{p}] {'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode} {time.time()-t0:.0f}s {' | '.join(msgs)} {fl[0][:160] if fl else r.stdout[-300:]}", flush=True)
        if msgs: bad += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
