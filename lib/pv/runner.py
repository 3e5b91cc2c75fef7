"""Builds pywr, distributes a check's cases over worker processes, gives the verdict and the evidence."""
import collections
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build

VERIF = build.VERIF
NW = 8


def known_keys(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as fh:
            k = json.load(fh)
    except OSError:
        return {}
    return {f["key"]: f for f in k.get("findings", []) if f["property"] == pid}


def worker_env(root, flavour):
    env = dict(os.environ)
    env["PYTHONPATH"] = root + os.pathsep + os.path.join(VERIF, "lib")
    env["PV_TREE"] = root
    if flavour == "asan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        stdcpp = subprocess.check_output(["gcc", "-print-file-name=libstdc++.so.6"], text=True).strip()
        env["LD_PRELOAD"] = f"{lib}:{ub}:{stdcpp}"
        env["ASAN_OPTIONS"] = "detect_leaks=1:leak_check_at_exit=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:max_malloc_fill_size=65536:malloc_fill_byte=127:quarantine_size_mb=64"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        env["PYTHONMALLOC"] = "malloc"
    return env


class Pool:
    def __init__(self, pid, tier, seed, n, deadline, root, flavour, case_timeout, tree2=None):
        self.pid, self.tier, self.seed, self.n = pid, tier, seed, n
        self.deadline, self.root, self.flavour = deadline, root, flavour
        self.case_timeout = case_timeout
        self.tmp = tempfile.mkdtemp(prefix="run-", dir=build.BUILD)
        self.results, self.crashes, self.timeouts = [], [], []
        self.started = 0

    def spawn(self, k, start):
        d = os.path.join(self.tmp, f"w{k}-{start}")
        os.makedirs(d)
        out = os.path.join(d, "out.jsonl")
        err = open(os.path.join(d, "err.txt"), "wb")
        p = subprocess.Popen([build.PY, "-m", "pv.worker", self.pid, self.tier, str(self.seed), str(start), str(NW),
                              str(self.n), str(self.deadline), out], cwd=d, env=worker_env(self.root, self.flavour),
                             stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        return dict(p=p, k=k, d=d, out=out, err=err, pos=0, case=None, t=time.time(), buf=b"")

    def drain(self, w):
        try:
            with open(w["out"], "rb") as fh:
                fh.seek(w["pos"])
                data = fh.read()
        except OSError:
            return
        w["pos"] += len(data)
        w["buf"] += data
        *lines, w["buf"] = w["buf"].split(b"\n")
        for ln in lines:
            r = json.loads(ln)
            if r["ev"] == "start":
                w["case"], w["t"] = r["case"], time.time()
                self.started += 1
            else:
                w["case"], w["t"] = None, time.time()
                self.results.append(r)

    def run(self):
        ws = [self.spawn(k, k) for k in range(min(NW, self.n))]
        while ws:
            time.sleep(0.05)
            for w in list(ws):
                rc = w["p"].poll()
                self.drain(w)
                if rc is None:
                    if time.time() - w["t"] > self.case_timeout:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                        w["p"].wait()
                        self.drain(w)
                        self.timeouts.append(w["case"])
                        ws.remove(w)
                        if w["case"] is not None and time.time() < self.deadline and w["case"] + NW < self.n:
                            ws.append(self.spawn(w["k"], w["case"] + NW))
                    continue
                ws.remove(w)
                w["err"].close()
                if rc != 0:
                    with open(os.path.join(w["d"], "err.txt"), "rb") as fh:
                        e = fh.read().decode(errors="replace")
                    self.crashes.append((w["case"], rc, e[-6000:]))
                    if w["case"] is not None and len(self.crashes) < 12 and time.time() < self.deadline and w["case"] + NW < self.n:
                        ws.append(self.spawn(w["k"], w["case"] + NW))
                else:
                    shutil.rmtree(w["d"], ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    meta = json.loads(subprocess.check_output(
        [build.PY, "-c", f"import checks.{pid.lower()}_meta" if False else
         f"import ast,json,sys\nsrc=open('checks/{pid.lower()}.py').read()\n"
         "for n in ast.parse(src).body:\n"
         "    if isinstance(n, ast.Assign) and n.targets[0].id == 'META':\n"
         "        print(json.dumps(ast.literal_eval(n.value)))\n        break"], text=True))
    flavour = meta.get("flavour", "plain")
    try:
        root = build.tree(flavour)
    except RuntimeError as e:
        print("build failed:", e)
        sys.exit(3)
    try:
        if tier in ("replay", "case"):
            if tier == "replay":
                with open(sys.argv[3]) as fh:
                    r = json.load(fh)
                args = [r["tier"], str(r["seed"]), str(r["case"])]
            else:
                args = ["quick", sys.argv[3], sys.argv[4]]
            d = tempfile.mkdtemp(prefix="replay-", dir=build.BUILD)
            try:
                rc = subprocess.call([build.PY, "-m", "pv.worker", pid, args[0], args[1], args[2], "1", "single", "0", "-"],
                                     cwd=d, env=worker_env(root, flavour))
            finally:
                shutil.rmtree(d, ignore_errors=True)
            sys.exit(1 if rc else 0)
        run(pid, tier, seed, meta, root, flavour, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(pid, tier, seed, meta, root, flavour, t0):
    n = meta["n"][0 if tier == "quick" else 1]
    budget = meta.get("budget", [75, 600])[0 if tier == "quick" else 1]
    pool = Pool(pid, tier, seed, n, time.time() + budget, root, flavour, meta.get("case_timeout", 200))
    pool.run()
    counters, distinct, samples, viols = collections.Counter(), set(), [], []
    for r in pool.results:
        counters.update(r["counters"])
        distinct.update(r["distinct"])
        if r["samples"] and len(samples) < 6:
            samples += r["samples"][:2]
        for v in r["violations"]:
            viols.append((r["case"], v["key"], v["message"], v.get("detail")))
    harness = []
    for c, rc, e in pool.crashes:
        if c is None:
            harness.append(f"worker died outside a case, rc={rc}: {e[-1500:]}")
        else:
            viols.append((c, "crash", f"the process running the model died (status {rc})", e))
    known = known_keys(pid)
    seen_known = set()
    fresh = []
    for v in sorted(viols, key=lambda v: (v[0], v[1])):
        if v[1] in known:
            seen_known.add(v[1])
        else:
            fresh.append(v)
    for k in sorted(known):
        # a listed finding is re-established by the check on every run
        if k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    out = 0
    if fresh:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        done = collections.Counter()
        for case, key, msg, detail in fresh:
            done[key] += 1
            if done[key] > 1 or len(done) > (999 if os.environ.get("PV_ALL") else 6):
                continue
            path = os.path.join(rd, f"{pid}-{tier}-{seed}-{case}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=case, key=key, message=msg, detail=detail), fh, indent=1, default=str)
            print(f"  [{key}] case {case}: {msg}"[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        out = 1
    # a slower machine runs fewer cases before the budget ends, so what the monitors must have seen shrinks with them
    share = .4 * min(1, len(pool.results) / n)
    lacking = [k for k, m in meta.get("min_events", {}).items() if counters[k] < max(1, m * share)]
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get("level", "exploration"),
              coverage=dict(evaluations=len(pool.results), distinct_nontrivial=len(distinct), rule=meta["rule"],
                            samples=samples[:6] or ["none"], monitor_events=dict(sorted(counters.items())),
                            timeouts=len(pool.timeouts), planned_cases=n, build=flavour,
                            known_findings_seen=sorted(seen_known)),
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print(f"{pid} {tier} seed={seed}: {len(pool.results)}/{n} cases, {len(distinct)} distinct, {sum(counters.values())} monitor events, "
          f"{len(fresh)} violations, {len(seen_known)} known, {len(pool.timeouts)} timeouts, {time.time() - t0:.1f}s")
    print("   ", dict(sorted(counters.items())))
    if out == 0:
        if harness:
            print("harness error:", harness[0])
            out = 3
        elif lacking or pool.timeouts and len(pool.results) < n // 20:
            print("INCONCLUSIVE: monitors not reached:", lacking, "timeouts:", pool.timeouts)
            out = 2
    sys.exit(out)


if __name__ == "__main__":
    main()
