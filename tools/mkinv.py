#!/usr/bin/env python3-vt
"""Record the loop invariants (candidate names) that the search finds on the current tree: fcv/invariants.json.

usage: mkinv.py [group...]   -- the record only saves time: check.py re-checks every invariant and falls back to the search."""
import sys, os, json, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
import check
from check import G, run_groups

out = os.path.join(check.VERIF, "fcv", "invariants.json")
names = sys.argv[1:] or sorted(G.GROUPS)
work = tempfile.mkdtemp(prefix="fcv_inv_")
try:
    keep = lambda d: {k: v for k, v in d.items() if k.split("/")[0] not in names}
    certs, times = keep(check.CERTS), keep(check.TIMES)
    check.NOCERT = True
    every = lambda n, s: True
    res, errs = run_groups(names, every, work, set(), 7200, 7200)
    print(errs, flush=True)
    todo, nm = {}, lambda k: "%s/%s" % (k[0], res[k]["function"])
    for k, r in sorted(res.items()):
        times[nm(k)] = round(r["time"], 1)
        if not r["ok"]:
            print("not verified:", nm(k), r["error"] or [o[0] for o in r["obligations"] if not o[3]][:5], flush=True)
        elif r["loops"] and r["time"] > 2:
            todo.setdefault(k[0], []).append(k[1])
    check.NOCERT, check.ONLYCERT = False, True
    best = {}
    for which in ("cert_min", "cert_all"):
        check.CERTS = {nm((g, i)): res[(g, i)][which] for g, l in todo.items() for i in l}
        for k, r in run_groups(sorted(todo), every, work, set(), 7200, 7200, todo=todo)[0].items():
            if r.get("recorded") and r["ok"] and r["time"] < best.get(k, 0.9 * res[k]["time"]):
                best[k] = r["time"]
                certs[nm(k)], times[nm(k)] = res[k][which], round(r["time"], 1)
    for g, l in todo.items():
        for i in l:
            k = (g, i)
            if best.get(k, 99) > 15:
                print("%s %.0f -> %s s" % (nm(k), res[k]["time"], "%.0f" % best[k] if k in best else "?"), flush=True)
    certs["#seconds"] = times
    json.dump(certs, open(out, "w"), indent=0, sort_keys=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
