#!/usr/bin/env python3
"""seeds.py [ids]: applies each planted bug to a scratch copy of /repo and runs the quick analyses of its own property."""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import check  # noqa: E402
from sa.tasks import tasks_for  # noqa: E402


def main(ids):
    base = os.path.join(ROOT, "seeded")
    for i in ids or sorted(os.listdir(base)):
        d = os.path.join(base, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        prop = meta["property"]
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
            if subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w + "/r").returncode:
                print("NOAPPLY", i)
                continue
            ts = sorted(tasks_for(prop, "quick"), key=lambda t: -t.weight)
            found, und = [], 0
            with multiprocessing.get_context("fork").Pool(os.cpu_count()) as pool:
                for o in pool.imap_unordered(check.run_task, [(w + "/r/src", t, 150) for t in ts], 1):
                    und += bool(o["undecided"])
                    found += [f for f in o["findings"] if prop in f["props"]]
            found.sort(key=lambda f: f["text"])
            print("| %s | %s | %s |" % (i, "%d reports" % len(found) + (", %d undecided" % und if und else "") if found
                                        else "MISSED", found[0]["text"].replace("|", "\\|")[:150] if found else ""), flush=True)
        finally:
            shutil.rmtree(w)


main(sys.argv[1:])
