#!/usr/bin/env python3
"""Compares what the models emit with and without the Java accelerator.

usage: tools/selftest.py [property ...]     (default: all; about half an hour)
"""
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import core  # noqa: E402

sys.path.insert(0, core.REPO)
props = sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness")) if f[0] == "c" and f[1:3].isdigit())
bad = 0
for p in props:
    chk = importlib.import_module(p.lower()).make("quick", 1)
    for module, cfg, *kw in chk.models():
        res = []
        for off in (False, True):
            core._classes = "" if off else None
            t = time.time()
            r = core.run_tlc(module, cfg, timeout=3600, **(kw[0] if kw else {}))
            if r.error or r.violated:
                print(p, module, "overrides off" if off else "overrides on", (r.error or r.violated)[-2000:])
                bad += 1
            res.append((r.distinct, sorted(core.dumps(c) for c in r.cases), round(time.time() - t, 1)))
        # with several workers the history printed for a transition may differ: compare the last step and its effect
        key = [sorted(core.dumps([c["path"][-1] if "path" in c else c]) for c in map(core.json.loads, x[1])) for x in res]
        same = res[0][0] == res[1][0] and key[0] == key[1]
        bad += not same
        print(p, module, "same" if same else "DIFFERENT", res[0][0], len(res[0][1]), f"{res[0][2]} s / {res[1][2]} s", flush=True)
core.cleanup()
sys.exit(bool(bad))
