"""python3 -m sa.check PROPERTY [--src DIR] : decide a property for the current source.

Exit 0: no violation found.  Exit 1: `VIOLATION property=<id> replay=<path>`.  Exit 2: the analysis could not be made.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from .compare import Incomplete
from .domain import Split, Unsupported
from .interp import Rz
from .tasks import all_tasks, tasks_for, witnesses_for
from .world import World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
LIMIT = {"quick": 150, "thorough": 600}


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout()


def done(out, fs):
    for props, f in fs:
        out["findings"].append({"props": list(props), "src": f.src, "mode": f.mode, "field": f.field, "msg": f.msg,
                                "site": f.site, "text": f.text(), "path": f.lits})


def run_task(job):
    src, task, limit = job
    t = time.time()
    out = {"name": task.name, "what": task.what(), "findings": [], "stats": {}, "functions": [], "undecided": None, "loops": 0,
           "paths": 0}
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    sys.setrecursionlimit(20000)
    try:
        w = World(src)
        split = {}
        while True:
            try:
                fs, stats = task.run(w)
                break
            except Split as e:
                split[e.args[0]] = e.args[1]
                w = World(src)
                w.split = split
        signal.alarm(0)
        out["stats"] = dict(stats)
        out["loops"] = w.stats["loops"]
        out["paths"] = w.stats["paths"]
        out["functions"] = sorted(f for f in w.I.functions_seen if not f.startswith("<"))
        done(out, fs)
    except (Unsupported, Incomplete) as e:
        out["undecided"] = "%s: %s" % (type(e).__name__, str(e)[:400])
    except Timeout:
        out["undecided"] = "time limit of %d s" % limit
    except RecursionError:
        out["undecided"] = "recursion limit of the analyser"
    except Rz as e:
        out["undecided"] = "an exception escapes the analysed set-up code"
    except Exception as e:
        out["undecided"] = "internal: %s" % traceback.format_exc(limit=-4)
    finally:
        signal.alarm(0)
    if out["undecided"]:
        done(out, task.partial())
    out["wall"] = round(time.time() - t, 2)
    return out


def run_tasks(src, tasks, tier, jobs=None):
    jobs = jobs or os.cpu_count() or 1
    work = [(src, t, LIMIT[tier]) for t in sorted(tasks, key=lambda t: -t.weight)]
    ctx = multiprocessing.get_context("fork")
    if jobs == 1 or len(work) == 1:
        return [run_task(j) for j in work]
    with ctx.Pool(min(jobs, len(work))) as pool:
        return pool.map(run_task, work, 1)


def digest(src):
    h = hashlib.sha256()
    n = 0
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if f.endswith(".py"):
                n += 1
                with open(os.path.join(d, f), "rb") as x:
                    h.update(x.read())
    return n, h.hexdigest()


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                out.append(dict(kv.split("=", 1) for kv in line[len("finding: "):].strip().split("\t")))
    return out


def matches(k, f):
    return k.get("src") == f["src"] and k.get("mode") == f["mode"] and k.get("field") == f["field"] and k.get("msg") == f["msg"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--src", default=os.environ.get("VERIF_SRC", "/repo/src"))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    os.makedirs(a.out, exist_ok=True)
    tasks = tasks_for(prop, a.tier)
    wit = witnesses_for(prop)
    if not tasks:
        print("no analysis for property %s" % prop)
        return 2
    try:
        World(a.src)
    except Rz as e:
        print("ANALYSIS-BROKEN property=%s importing the package raises an exception" % prop)
        return 2
    except (Unsupported, SyntaxError, KeyError) as e:
        print("ANALYSIS-BROKEN property=%s %s: %s" % (prop, type(e).__name__, e))
        return 2
    outs = run_tasks(a.src, tasks + wit, a.tier, a.jobs)
    names = {t.name for t in wit}
    wouts = [o for o in outs if o["name"] in names]
    outs = [o for o in outs if o["name"] not in names]
    undecided = [o for o in outs if o["undecided"]]
    findings = []
    for o in outs:
        for f in o["findings"]:
            if prop in f["props"]:
                findings.append(dict(f, task=o["name"]))
    ks = known(prop)
    fresh = [f for f in findings if not any(matches(k, f) for k in ks)]
    silent = [o["name"] for o in wouts if not o["undecided"] and not any(prop in f["props"] for f in o["findings"])]
    fns = sorted({f for o in outs for f in o["functions"]})
    nmod, sha = digest(a.src)
    comparisons = sum(o["stats"].get("comparisons", 0) for o in outs)
    print("property %s: %d analyses, %d functions of %d modules, %d joint paths, %d loops brought to a fixed point, "
          "%d comparisons, %d events" % (
              prop, len(outs), len(fns), nmod, sum(o["stats"].get("outcomes", 0) for o in outs), sum(o["loops"] for o in outs),
              comparisons, sum(o["stats"].get("events", 0) for o in outs)))
    for o in undecided:
        print("UNDECIDED %s: %s" % (o["name"], o["undecided"].split("\n")[0]))
    print("must-fire pairs: %d, all reported: %s" % (len(wouts), not silent))
    evidence = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of %s: every function reached from the combinations below is interpreted abstractly on "
                           "all of its paths (sub-parsers, user functions, input and positions unknown; loops brought to a fixed "
                           "point), jointly with the reference model of sa/model.py on the same path facts; each aspect of the two "
                           "results is compared.  'joint_paths' counts pairs of paths that were compared, 'comparisons' the "
                           "aspects compared.  Undecided analyses are listed; they are not counted as holding." % a.src,
            "modules": nmod, "source_sha256": sha, "analyses": len(outs), "decided": len(outs) - len(undecided),
            "undecided": {o["name"]: o["undecided"] for o in undecided},
            "joint_paths": sum(o["stats"].get("outcomes", 0) for o in outs),
            "paths_explored": sum(o["paths"] for o in outs),
            "loops_fixed": sum(o["loops"] for o in outs), "comparisons": comparisons,
            "events_checked": sum(o["stats"].get("events", 0) for o in outs),
            "functions_analysed": fns,
            "must_fire": {o["name"]: (o["findings"][0]["text"] if o["findings"] else o["undecided"]) for o in wouts},
            "rules": [{"name": o["name"], "what": o["what"], "joint_paths": o["stats"].get("outcomes", 0),
                       "comparisons": o["stats"].get("comparisons", 0), "wall_s": o["wall"],
                       "findings": sum(1 for f in o["findings"] if prop in f["props"])} for o in outs],
        },
        "assumptions": [
            "The abstract semantics of the Python subset in sa/interp.py and sa/lib.py is that of CPython.",
            "Sub-parsers meet the contract of the library (sa/world.py, oracle); user functions are pure and total unless stated.",
            "Bounds on the length of unrolled repetitions and skips are those of sa/scen.py; beyond them loops are widened.",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    path = os.path.join(a.out, prop + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    for f in findings:
        if f not in fresh:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    if fresh:
        rp = os.path.join(a.out, prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
            f.write("\n")
        for f in fresh[:10]:
            print("  %s" % f["text"])
            if f["path"]:
                print("    on the path: %s" % "; ".join(str(x) for x in f["path"][:12]))
        if len(fresh) > 10:
            print("  ... and %d more" % (len(fresh) - 10))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if silent:
        print("ANALYSIS-BROKEN property=%s the pairs %s were not reported" % (prop, ", ".join(silent)))
        return 2
    if len(undecided) * 2 > len(outs):
        print("ANALYSIS-INCOMPLETE property=%s %d of %d analyses undecided" % (prop, len(undecided), len(outs)))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
