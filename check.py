#!/usr/bin/env python3-vt
"""Decide one property: extract the real code, discharge every contract obligation, report.

usage: python3-vt check.py <property> [--tier quick|thorough]
"""
import sys, os, json, time, tempfile, shutil, subprocess, traceback, concurrent.futures, argparse, pickle, select, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from fcv import groups as G
from fcv.extract import extract, BuildError, REPO
from fcv.spec import verify
from fcv import loops
from fcv.llvmir import Unsupported

PROGS, SPECS = {}, {}
HARD = 640            # seconds of wall clock for the proof part
WCLASS = {"functional": "functional", "frame": "functional", "termination": "functional", "vacuity": "functional", "invariant": "functional",
          "policy": "policy", "lifetime": "lifetime", "bounds": "bounds", "stability": "stability"}


# loop invariants found by an earlier run (names of candidates): tried first, checked like any other; a spec whose recorded
# invariants do not go through is verified from scratch
ONLYCERT = False
NOCERT = bool(os.environ.get("FCV_NOCERT"))
try:
    CERTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fcv", "invariants.json")))
except (OSError, ValueError):
    CERTS = {}
TIMES = CERTS.pop("#seconds", {})      # only to start long proofs first


def slim(r):
    r["obligations"] = [(o.name, list(o.tags), str(o.loc) if o.loc else None, bool(o.ok), (o.detail or "")[:4000] if not o.ok else "") for o in r["obligations"]]
    return r


def in_child(f):
    """run f in a forked copy of this process and return its result: what a proof attempt leaves behind in the solver cannot influence the next one"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            d = pickle.dumps(f())
            with os.fdopen(wr, "wb") as o:
                o.write(d)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
    os.close(wr)
    with os.fdopen(rd, "rb") as i:
        d = i.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(d) if st == 0 and d else None


def task(key):
    g, i = key
    grp = G.GROUPS[g]
    sp = SPECS[g][i]
    t0 = time.time()
    args = (PROGS[g], sp, grp.syms, grp.facts, grp.models)
    cert = None if NOCERT else CERTS.get("%s/%s" % (g, sp.name))
    r = None
    if cert is not None:
        r = in_child(lambda: slim(verify(*args, budget=grp.budget, cert=set(cert))))
    if r is None or not r["ok"] and not ONLYCERT:
        def search(mult):
            def f():
                loops.RL_H, loops.RL_L, loops.RL_I = mult[0] * loops.RL_H, mult[1] * loops.RL_L, mult[2] * loops.RL_I
                return slim(verify(*args, budget=grp.budget))
            return in_child(f)
        b = getattr(sp, "boost", 1)
        r = search((1, b, b))
        if r is None:
            raise RuntimeError("proof process ended without an answer")
        if not r["ok"] and not r["error"] and time.time() - t0 < 200:
            # a second attempt with larger limits for the search for loop invariants
            r2 = search((2, 4 * b, 4 * b))
            r = r2 if r2 and r2["ok"] else r
        r["recorded"] = False
    else:
        r["recorded"] = True
    r["time"] = time.time() - t0
    return key, r


def prepare(names, work):
    errs = {}

    def go(n):
        g = G.GROUPS[n]
        d = os.path.join(work, n)
        os.makedirs(d, exist_ok=True)
        return extract(d, g.src, g.caps, g.capnames, g.syms, keep=g.keep, defs=g.defs, flags=g.flags)
    with concurrent.futures.ThreadPoolExecutor(3) as tp:
        fs = {n: tp.submit(go, n) for n in names}
        for n, f in fs.items():
            try:
                PROGS[n] = f.result()
                SPECS[n] = G.GROUPS[n].mkspecs(PROGS[n])
            except (BuildError, Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as e:
                errs[n] = "%s: %s" % (type(e).__name__, str(e)[-1500:])
                PROGS.pop(n, None)
    return errs


def blank(name, err, t0, skipped=False):
    return {"function": name, "ok": False, "error": err, "obligations": [], "paths": 0, "loops": [], "solver_time": 0.0, "time": time.time() - t0,
            "assumed": [], "callees": [], "locs": [], "skipped": skipped, "backends": {}}


def save(path, obj):
    with open(path + ".tmp", "wb") as f:
        pickle.dump(obj, f)
    os.rename(path + ".tmp", path)


def serve(n, want, work, res, tok, todo=None):
    """one process per group: extract the code, build the contracts, verify each wanted one in a child process (tok: pipe with one byte per free core)"""
    errs = prepare([n], work)
    if n in errs:
        save(os.path.join(res, n + ".group"), (errs[n], []))
        return
    idx = [i for i, s in enumerate(SPECS[n]) if want(n, s)] if todo is None else todo
    save(os.path.join(res, n + ".group"), (None, [(i, SPECS[n][i].name) for i in idx]))
    idx.sort(key=lambda i: -TIMES.get("%s/%s" % (n, SPECS[n][i].name), 5 * SPECS[n][i].cost))
    kids = {}

    def reap(block):
        while kids:
            pid, st = os.waitpid(-1, 0 if block else os.WNOHANG)
            if pid == 0:
                return
            i = kids.pop(pid)
            os.write(tok[1], b"x")
            if st != 0 and not os.path.exists(os.path.join(res, "%s.%d.res" % (n, i))):
                save(os.path.join(res, "%s.%d.res" % (n, i)), blank(SPECS[n][i].name, "worker: ended with status %d" % st, time.time()))
    for i in idx:
        while not select.select([tok[0]], [], [], 0.05)[0]:
            reap(False)
        os.read(tok[0], 1)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                save(os.path.join(res, "%s.%d.res" % (n, i)), task((n, i))[1])
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        kids[pid] = i
        reap(False)
    reap(True)


def run_groups(gnames, want, work, tags, grace, hard=None, todo=None, why=False):
    """verify every wanted contract; after the first failure the others get `grace` more seconds (they are then reported as not decided).
    Each group is handled by its own process, so that an answer does not depend on which other groups a property uses."""
    res = tempfile.mkdtemp(dir=work, prefix="res_")
    t0 = time.time()
    tok = os.pipe()
    os.write(tok[1], b"x" * (os.cpu_count() or 8))
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for n in gnames:
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                serve(n, want, work, res, tok, todo and todo.get(n, []))
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        pids[n] = pid
    errs, names, out = {}, {}, {}
    stop, live = t0 + (hard or HARD), dict(pids)
    try:
        while live and time.time() < stop:
            time.sleep(0.1)
            done = [n for n, pid in live.items() if os.waitpid(pid, os.WNOHANG)[0]]
            for f in os.listdir(res):
                q = os.path.join(res, f)
                if f.endswith(".group"):
                    n = f[:-6]
                    if n not in names:
                        e, ks = pickle.load(open(q, "rb"))
                        names[n] = dict(ks)
                        if e:
                            errs[n] = e
                            why, stop = True, min(stop, time.time() + grace)
                elif f.endswith(".res"):
                    n, i, _ = f.rsplit(".", 2)
                    if (n, int(i)) not in out:
                        o = out[(n, int(i))] = pickle.load(open(q, "rb"))
                        if not why and (o["error"] or any(not x[3] and set(x[1]) & tags for x in o["obligations"])):
                            why, stop = True, min(stop, time.time() + grace)
            for n in done:
                del live[n]
                if n not in names:
                    errs[n] = "the extraction process ended without an answer"
    finally:
        for pid in live.values():
            try:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        os.close(tok[0])
        os.close(tok[1])
    for n in gnames:
        if n not in names and n not in errs:
            errs[n] = "timeout"
        for i, nm in names.get(n, {}).items():
            if (n, i) not in out:
                out[(n, i)] = blank(nm, None if why else "timeout", t0, skipped=why)
    return out, errs


def build_exes(cfgs, d):
    os.makedirs(d, exist_ok=True)

    def build(i):
        src, defs = cfgs[i]
        exe = os.path.join(d, "w%d" % i)
        cmd = ["clang++-18", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I", os.path.join(REPO, "include"),
               "-I", os.path.join(VERIF, "fcv", "witness"), os.path.join(VERIF, "fcv", "witness", src), "-o", exe] + ["-D%s=%s" % kv for kv in defs.items()]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return (exe, cmd) if p.returncode == 0 else (None, p.stderr[-800:])
    with concurrent.futures.ThreadPoolExecutor(8) as tp:
        exes = list(tp.map(build, range(len(cfgs))))
    good = [(cfgs[i], e[0], e[1]) for i, e in enumerate(exes) if e[0]]
    notes = ["%s does not build: %s" % (cfgs[i], e[1]) for i, e in enumerate(exes) if not e[0]]
    return good, notes


WENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:symbolize=0", UBSAN_OPTIONS="print_stacktrace=0")


def run_exe(cfg, exe, cmd, sd, classes, extra, limit, cwd):
    """one concrete run; returns (witness or None, last stdout line)"""
    args = [exe, "--seed", str(sd), "--classes", ",".join(sorted(classes))] + extra
    try:
        p = subprocess.run(args, capture_output=True, text=True, errors="replace", timeout=limit, env=WENV, cwd=cwd)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    w = [l for l in p.stdout.splitlines() if l.startswith(("WITNESS", "HISTORY"))]
    if w:
        case = [x for x in w[0].split() if x.startswith("case=")][0][5:]
        return {"text": w, "build": cmd, "run": [exe, "--seed", str(sd), "--case", case, "--classes", ",".join(sorted(classes))], "stderr": p.stderr[-2500:], "config": [cfg[0], cfg[1]]}, ""
    l = [x for x in p.stdout.splitlines() if x.startswith("NOWITNESS")]
    return None, l[-1] if l else "rc=%d %s" % (p.returncode, p.stderr[-300:])


def witness(gnames, classes, seed, work, secs):
    """concrete search on the real code after an obligation failed; returns (witness or None, notes)"""
    cfgs = []
    for n in gnames:
        for c in G.GROUPS[n].witness:
            if c not in cfgs:
                cfgs.append(c)
    if not cfgs:
        return None, []
    d = os.path.join(work, "wit")
    good, notes = build_exes(cfgs, d)
    if not good:
        return None, notes
    jobs = []
    k = 0
    while len(jobs) < max(8, len(good)):
        jobs.append((*good[k % len(good)], seed * 100 + k))
        k += 1
    with concurrent.futures.ThreadPoolExecutor(8) as tp:
        rs = [r for r, _ in tp.map(lambda j: run_exe(j[0], j[1], j[2], j[3], classes, ["--time", str(secs)], secs + 60, d), jobs) if r]
    return (rs[0] if rs else None), notes


def bounded_runs(specs, classes, seed, work, tier):
    """bounded stand-ins: a fixed number of histories of the real code per configuration, every call checked against its contract"""
    if not specs:
        return [], None, []
    d = os.path.join(work, "bnd")
    cfgs = [(b["src"], b["defs"]) for b in specs]
    good, notes = build_exes(cfgs, d)
    mult = 8 if tier == "thorough" else 1
    jobs = []
    for cfg, exe, cmd in good:
        b = next(b for b in specs if (b["src"], b["defs"]) == cfg)
        par = b.get("par", 2)
        for k in range(par):
            jobs.append((cfg, exe, cmd, seed * 100 + k, ["--cases", str(b["cases"] * mult // par), "--time", "100000"], b))
    out, wit = [], None
    with concurrent.futures.ThreadPoolExecutor(8) as tp:
        for j, (w, line) in zip(jobs, tp.map(lambda j: run_exe(j[0], j[1], j[2], j[3], classes, j[4], 300 * mult, d), jobs)):
            if w:
                wit = wit or w
            elif not line.startswith("NOWITNESS"):
                notes.append("%s %s: %s" % (j[0][0], j[0][1], line))
            out.append({"program": j[0][0], "defs": {k: str(v) for k, v in j[0][1].items()}, "seed": j[3], "result": "violation" if w else line[:600], "what": j[5]["what"]})
    return out, wit, notes


def known_findings(prop):
    """key -> text of the 'finding:' lines of known-findings.txt for this property"""
    out = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        f = l.split(None, 3)
        if len(f) == 4 and f[0] == "finding:" and f[1] == "property=" + prop and f[2].startswith("key="):
            out[f[2][4:]] = f[3].strip()
    return out


def probe_runs(srcs, prop, work):
    """concrete probes of recorded defects: returns (known lines, violation or None, notes)"""
    known, lines, wit, notes = known_findings(prop), [], None, []
    good, notes = build_exes([(s, {}) for s in srcs], os.path.join(work, "probe"))
    for cfg, exe, cmd in good:
        try:
            p = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=120, env=WENV, cwd=os.path.join(work, "probe"))
        except subprocess.TimeoutExpired:
            notes.append("%s: timeout" % cfg[0])
            continue
        if p.returncode != 0 and "FINDING" not in p.stdout:
            notes.append("%s: rc=%d %s" % (cfg[0], p.returncode, p.stderr[-500:]))
        for l in p.stdout.splitlines():
            if l.startswith("FINDING key="):
                k = l[12:].strip()
                if k in known:
                    lines.append("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[k]))
                else:
                    wit = wit or {"text": ["WITNESS " + l], "build": cmd, "run": [exe], "stderr": p.stderr[-2000:], "config": [cfg[0], {}]}
        if p.returncode != 0 and "FINDING" in p.stdout:
            wit = wit or {"text": ["WITNESS rc=%d after: %s" % (p.returncode, p.stdout[-300:])], "build": cmd, "run": [exe], "stderr": p.stderr[-2000:], "config": [cfg[0], {}]}
    return lines, wit, notes


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    P = G.PROPS[a.prop]
    gnames = list(P.groups) + (list(P.thorough) if tier == "thorough" else [])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="fcv_%s_" % a.prop)
    try:
        want = lambda n, s: (P.pick is None or P.pick(n, s)) and (tier == "thorough" or G.in_quick(n, s, a.prop))
        bclasses = {WCLASS[t] for t in P.tags if t in WCLASS}
        brun, bwit, bnotes = bounded_runs(P.bounded, bclasses, seed, work, tier)
        # with a failing history at hand, proof attempts that are bound to fail are cut short
        res, errs = run_groups(gnames, want, work, P.tags, 600 if tier == "thorough" else 45, 90 if bwit and tier == "quick" else None, why=bool(bwit))
        keys = sorted(res)
        klines, kwit, knotes = probe_runs(P.probes, a.prop, work)
        for l in klines:
            print(l)
        bwit, bnotes = bwit or kwit, bnotes + knotes
        failed = []       # (group, function, obligation, tags, loc, detail)
        nobl = ndis = 0
        backends = {}
        funcs = []
        for k in keys:
            r = res[k]
            n = k[0]
            sel = [o for o in r["obligations"] if set(o[1]) & P.tags]
            nobl += len(sel)
            ndis += sum(1 for o in sel if o[3])
            for o in sel:
                if not o[3]:
                    failed.append((n, r["function"], o[0], o[1], o[2], o[4]))
            if r["error"]:
                nobl += 1
                failed.append((n, r["function"], "verification-condition-generation", sorted(P.tags), None, r["error"][:4000]))
            if r.get("skipped"):
                nobl += 1
            for b, c in (r.get("backends") or {}).items():
                backends[b] = backends.get(b, 0) + c
            funcs.append({"group": n, "function": r["function"], "obligations": len(sel), "discharged": sum(1 for o in sel if o[3]), "all_obligations": len(r["obligations"]),
                          "paths": r["paths"], "loops": len(r["loops"]), "solver_s": round(r["solver_time"], 2)})
        for n, e in errs.items():
            nobl += 1
            failed.append((n, "(extraction)", "extraction", sorted(P.tags), None, e))
        if bwit:
            failed.append(("bounded", bwit["config"][0], "contract-violated-in-bounded-run", sorted(P.tags), None, bwit["text"][0]))
        elif bnotes:
            failed.append(("bounded", "-", "bounded-run-gave-no-answer", sorted(P.tags), None, "; ".join(bnotes)[:3000]))
        if nobl == 0 and not brun:
            failed.append(("-", "-", "no-obligations-generated", ["vacuity"], None, "the check generated no obligation"))
        callees = sorted({c for r in res.values() for c in r["callees"]})
        assumed = sorted({c for r in res.values() for c in r["assumed"]})
        import z3
        ev = {"property": a.prop, "tier": tier, "seed": seed, "level": G.LEVEL.get(a.prop, "proof"),
              "coverage": {"obligations": nobl, "discharged": ndis, "checker_cmd": "python3-vt check.py %s --tier %s" % (a.prop, tier),
                           "trusted_base": G.TRUSTED, "functions_under_contract": len(funcs), "real_functions_inlined_into_them": len(callees),
                           "loops_with_invariants": sum(f["loops"] for f in funcs), "paths": sum(f["paths"] for f in funcs),
                           "backend": "z3 %s, cvc5 1.1.2" % z3.get_version_string(), "queries_by_backend": backends, "solver_seconds": round(sum(r["solver_time"] for r in res.values()), 1),
                           "groups": {n: G.GROUPS[n].what for n in gnames}, "bounded": brun, "known_findings_seen": klines,
                           "contracts": funcs, "assumed_contracts_used": assumed},
              "assumptions": G.ASSUMPTIONS + G.PROP_ASSUMPTIONS.get(a.prop, []),
              "violations": len(failed), "wall_s": 0.0}
        if brun:
            nums = [dict(x.split("=", 1) for x in b["result"].split() if x.startswith(("cases=", "distinct="))) for b in brun]
            ev["coverage"].update(evaluations=sum(int(x.get("cases", 0)) for x in nums), distinct_nontrivial=sum(int(x.get("distinct", 0)) for x in nums),
                                  rule="seeded random operation histories on the real headers at small capacities, each call compared with its contract; non-trivial: more than one operation, counted once per distinct history text",
                                  samples=[b["result"].split("sample=", 1)[-1] for b in brun if "sample=" in b["result"]][:6])
        if ev["level"] == "other":
            ev["coverage"]["explanation"] = G.EXPLAIN.get(a.prop, "")
        rc = 0
        if failed:
            rc = 1
            classes = {WCLASS[t] for f in failed for t in f[3] if t in P.tags and t in WCLASS} or {"functional"}
            gs = [n for n in gnames if any(f[0] == n for f in failed)] or gnames
            w, notes = (bwit, bnotes) if bwit else witness(gs, classes, seed, work, 120 if tier == "thorough" else 50)
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % a.prop)
            doc = {"property": a.prop, "failed_obligations": [dict(zip(("group", "function", "obligation", "tags", "location", "verifier_output"), f)) for f in failed[:40]],
                   "witness": w, "witness_notes": notes}
            json.dump(doc, open(rp, "w"), indent=1)
            for f in failed[:12]:
                print("FAILED obligation: [%s] %s :: %s at %s" % (f[0], f[1], f[2], f[4]))
                if a.verbose:
                    print("    " + f[5][:1500])
            if w:
                for l in w["text"]:
                    print("  " + l)
            print("VIOLATION property=%s replay=%s%s" % (a.prop, rp, "" if w else " no-failing-input-found"))
        ev["wall_s"] = round(time.time() - t0, 1)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
        if rc == 0:
            print("OK property=%s obligations=%d functions=%d wall=%.0fs" % (a.prop, nobl, len(funcs), ev["wall_s"]))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
