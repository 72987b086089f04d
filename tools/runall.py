#!/usr/bin/env python3
"""All analyses of all properties for one source tree: which properties are reported.  --first: stop at the first finding."""
import argparse
import multiprocessing
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import check  # noqa: E402
from sa.tasks import all_tasks  # noqa: E402


def run(src, first=False, jobs=8, only=None, tier="quick"):
    tasks = [t for t in all_tasks(tier) if not only or only in t.name]
    tasks.sort(key=lambda t: (type(t).__name__ != "RuleTask" and type(t).__name__ != "ScTask", ) if first else -t.weight)
    props = {}
    undec = []
    texts = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        for o in pool.imap_unordered(check.run_task, [(src, t, 100) for t in tasks], 1):
            if o["undecided"]:
                undec.append((o["name"], o["undecided"].split("\n")[0] if not o["undecided"].startswith("internal") else
                              o["undecided"].strip().split("\n")[-1]))
            for f in o["findings"]:
                for p in f["props"]:
                    props[p] = props.get(p, 0) + 1
                texts.append((o["name"], f["props"], f["text"]))
            if first and texts:
                pool.terminate()
                break
    return props, undec, texts


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--src", default="/repo/src")
    ap.add_argument("--first", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-n", type=int, default=12)
    a = ap.parse_args()
    t = time.time()
    props, undec, texts = run(a.src, a.first, only=a.only)
    print(dict(sorted(props.items())), "undecided", len(undec), "%.1fs" % (time.time() - t))
    for u in undec[:a.n]:
        print("  UNDECIDED", *u)
    for n, p, x in texts[:a.n]:
        print("  ", n, p, x[:300])
