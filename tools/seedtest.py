#!/usr/bin/env python3
"""seedtest.py [--no-tests] [--check] ID...: confirms planted bugs in scratch copies of /repo (demo passes on /repo's build and fails
with the patch, the stable tests pass) and runs the property's quick check against the patched copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tests = "--no-tests" not in sys.argv


def sh(cmd, cwd=None, env=None, timeout=3000):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in args:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = f"/tmp/seed-{i}"
    out = [i, meta["property"]]
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    vp = f"{w}/.vp"
    sh(f"cp -a /opt/vp {vp} && sed -i 's#/repo#{w}#g; s#/opt/vp/lib#{vp}/lib#g' {vp}/build.sh {vp}/test.sh {vp}/lib/*")
    demo = f"{w}/.demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, t = sh(f"bash {vp}/build.sh", w)
    rc, t = sh(f"timeout 300 bash {demo}/demo.sh", w)
    out.append("clean demo ok" if rc == 0 else f"CLEAN DEMO FAILS {t[-600:]}")
    rc, t = sh(f"git apply {d}/patch.diff", w)
    if rc:
        out.append("PATCH FAILS " + t)
    rc, t = sh(f"bash {vp}/build.sh", w)
    if rc:
        out.append("BUILD FAILS " + t[-500:])
    rc, t = sh(f"timeout 300 bash {demo}/demo.sh", w)
    out.append(f"demo fails ({t.strip().splitlines()[-1][-150:] if t.strip() else ''})" if rc else "DEMO PASSES WITH PATCH")
    if "--demo" not in sys.argv:
        rc, t = sh(f"bash {V}/run_check.sh {meta['property']} quick", V, dict(PV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", PV_EVIDENCE="/tmp/seed-evidence"))
        viol = [l for l in t.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        keys = sorted({l.split("]")[0].strip() for l in t.splitlines() if l.startswith("  [")})
        out.append(f"CAUGHT {keys[:4]}" if rc == 1 and viol else f"MISSED rc={rc} {t[-200:]}")
        if tests:
            sh(f"bash {vp}/test.sh {w}/out.json", w)
            r = json.load(open(f"{w}/out.json"))
            miss = sorted(stable - set(r["passed"]))
            out.append("tests pass" if not miss else f"TESTS FAIL {len(miss)} {miss[:4]}")
    print(" | ".join(out), flush=True)
    shutil.rmtree(w)
