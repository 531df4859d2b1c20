#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: seedtest.py [--slot N] [--checks C01,C02] [--nocheck] ID...

Works in /tmp/sv<slot>, bind-mounted over /repo and /verif inside a private mount namespace, so the real trees stay untouched.
For every seed: demo passes on the clean tree, patch applies, builds, all baseline tests pass, demo fails, property's quick check reports it.
"""
import json, os, subprocess, sys, time

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def inner(args):
    checks, nocheck, ids, seeds = args["checks"], args["nocheck"], args["ids"], args["seeds"]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    os.chdir("/repo")
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-2000:]); return 1
    for i in ids:
        d = os.path.join(seeds, i)
        out = [i]
        t0 = time.time()
        meta = json.load(open(d + "/meta.json"))
        r = sh("timeout 300 bash %s/demo.sh" % d)
        out.append("demo_clean=%d" % r.returncode)
        if r.returncode: out.append(r.stdout[-800:])
        r = sh("git apply %s/patch.diff" % d)
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        try:
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            t = json.load(open("/tmp/seed_t.json"))
            if not t["passed"]: out.append("BUILD FAILED")
            missing = stable - set(t["passed"])
            out.append("tests=%s" % ("ok" if not missing else "BROKEN(%d) %s" % (len(missing), sorted(missing)[:4])))
            r = sh("timeout 300 bash %s/demo.sh" % d)
            out.append("demo_patched=%d" % r.returncode + ("" if r.returncode else " NOT-DEMONSTRATED"))
            out.append("[%s]" % r.stdout.strip()[-200:].replace("\n", " | "))
            if not nocheck:
                for c in checks or [meta["property"]]:
                    t1 = time.time()
                    r = sh("VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 /verif/run_check.py %s" % c)
                    v = [l.strip()[:160] for l in r.stdout.splitlines() if " case " in l and "(x" in l]
                    out.append("%s=%s(%.0fs)" % (c, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, time.time() - t1))
                    out += v[:2] if r.returncode == 1 else [r.stdout[-1500:]]
        finally:
            r = sh("git apply -R %s/patch.diff" % d)
            assert r.returncode == 0
        print("\n   ".join([" ".join(out[:5])] + out[5:]), "(%.0fs)" % (time.time() - t0)); sys.stdout.flush()
    return 0

if len(sys.argv) > 2 and sys.argv[1] == "--inner":
    sys.exit(inner(json.loads(sys.argv[2])))
a = sys.argv[1:]
slot, checks, nocheck, ids = "1", [], False, []
while a:
    x = a.pop(0)
    if x == "--slot": slot = a.pop(0)
    elif x == "--checks": checks = a.pop(0).split(",")
    elif x == "--nocheck": nocheck = True
    else: ids.append(x)
S = "/tmp/sv" + slot
os.makedirs(S, exist_ok=True)
if not os.path.exists(S + "/repo"):
    sh("cp -a /repo %s/repo" % S)
else:
    # same commit, keeping the copy's build products
    sh("git -C %s/repo fetch -q /repo HEAD && git -C %s/repo checkout -q -f FETCH_HEAD" % (S, S))
if not os.path.exists(S + "/verif"):
    sh("cp -a /verif %s/verif" % S)
sh("cp -au /verif/*.py /verif/known_findings.txt %s/verif/; cp -au /verif/harness /verif/tools %s/verif/; rm -rf %s/seeds; cp -a /verif/seeded %s/seeds; mkdir -p %s/tmp" % (S, S, S, S, S))
ids = ids or sorted(os.listdir("/verif/seeded"))
arg = json.dumps({"checks": checks, "nocheck": nocheck, "ids": ids, "seeds": S + "/seeds"})
sys.exit(subprocess.call(["unshare", "-Urm", "bash", "-c",
    "mount --bind %s/repo /repo && mount --bind %s/verif /verif && python3 /verif/tools/seedtest.py --inner \"$0\"" % (S, S), arg]))
