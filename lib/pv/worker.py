"""Runs the cases of one check in one process: python -m pv.worker PID tier seed start step n|single deadline out"""
import collections
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np


class Stop(Exception):
    """Ends a case early (enough seen)."""


class Ctx:
    def __init__(self, pid, tier, seed, i):
        self.pid, self.tier, self.seed, self.i = pid, tier, seed, i
        self.rng = random.Random(f"{pid}/{seed}/{i}")
        self.np = np.random.RandomState(self.rng.randrange(2 ** 31))
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.thorough = tier == "thorough"

    def event(self, name, n=1):
        self.counters[name] += n

    def key(self, *k):
        self.distinct.add("|".join(str(x) for x in k))

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def violation(self, key, message, detail=None):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, message=str(message), detail=detail))

    def check(self, cond, key, message, detail=None):
        self.counters["asserted"] += 1
        if not cond:
            self.violation(key, message() if callable(message) else message, detail)
        return cond

    def close(self, a, b, key, message, rtol=1e-6, atol=1e-6, detail=None):
        """a and b (scalars or arrays) agree; NaN equals NaN."""
        self.counters["asserted"] += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.violation(key, f"{message}: shape {a.shape} != {b.shape}", detail)
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            idx = np.argwhere(~np.atleast_1d(ok))[0]
            x, y = np.atleast_1d(a)[tuple(idx)], np.atleast_1d(b)[tuple(idx)]
            self.violation(key, f"{message}: got {x!r}, expected {y!r} at {idx.tolist()}", detail)
            return False
        return True


def main():
    pid, tier, seed, start, step, n, deadline, out = sys.argv[1:9]
    seed, start, step, deadline = int(seed), int(start), int(step), float(deadline)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import pywr
    tree = os.environ["PV_TREE"]
    assert os.path.realpath(pywr.__file__).startswith(os.path.realpath(tree)), pywr.__file__
    mod = importlib.import_module("checks." + pid.lower())
    single = n == "single"
    fh = None if out == "-" else open(out, "w")
    bad = 0
    for i in ([start] if single else range(start, int(n), step)):
        if not single and time.time() > deadline:
            break
        if fh:
            fh.write(json.dumps(dict(ev="start", case=i)) + "\n")
            fh.flush()
        ctx = Ctx(pid, tier, seed, i)
        try:
            mod.case(ctx)
        except Stop:
            pass
        except Exception as e:
            tb = traceback.format_exc()
            ctx.violation("exception:" + type(e).__name__, f"unexpected {type(e).__name__}: {e}", tb)
        if single:
            for v in ctx.violations:
                print(f"[{v['key']}] {v['message']}")
                if v.get("detail"):
                    d = v["detail"]
                    print(d if isinstance(d, str) else json.dumps(d, indent=1, default=str))
            print(dict(ctx.counters))
            bad = len(ctx.violations)
        if fh:
            fh.write(json.dumps(dict(ev="end", case=i, counters=dict(ctx.counters), distinct=sorted(ctx.distinct),
                                     samples=ctx.samples, violations=ctx.violations), default=str) + "\n")
            fh.flush()
    sys.exit(1 if single and bad else 0)


if __name__ == "__main__":
    main()
