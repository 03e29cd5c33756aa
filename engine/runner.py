"""check runner: ./check <property> [--tier quick|thorough] [--replay file]"""
import argparse
import concurrent.futures as cf
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import irload
import vlib
import smt
from vlib import *

EVID = os.path.join(ROOT, "evidence")
REPL = os.path.join(ROOT, "evidence", "replay")
sys.path.insert(0, os.path.join(ROOT, "contracts"))


def pool(jobs, nproc, timeout_of):
    """jobs: [(key, fn)] -> {key: result or None}; each job in its own process"""
    pend = list(jobs)[::-1]
    run = {}
    out = {}
    while pend or run:
        while pend and len(run) < nproc:
            key, fn = pend.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for q in run.values():
                        os.close(q[0])
                    data = pickle.dumps(fn())
                except BaseException as e:
                    data = pickle.dumps(("error", traceback.format_exc()[-3000:]))
                try:
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            run[pid] = [r, key, time.time() + timeout_of(key), b""]
        fds = {q[0]: pid for pid, q in run.items()}
        rd, _, _ = select.select(list(fds), [], [], 0.5)
        done = []
        for fd in rd:
            pid = fds[fd]
            b = os.read(fd, 1 << 20)
            if b:
                run[pid][3] += b
            else:
                done.append(pid)
        for pid in done:
            q = run.pop(pid)
            os.close(q[0])
            os.waitpid(pid, 0)
            try:
                out[q[1]] = pickle.loads(q[3])
            except Exception:
                out[q[1]] = ("error", "worker died")
        now = time.time()
        for pid in [p for p, q in run.items() if q[2] < now]:
            q = run.pop(pid)
            os.kill(pid, signal.SIGKILL)
            os.close(q[0])
            os.waitpid(pid, 0)
            out[q[1]] = ("timeout", None)
    return out


def bounded_clones(task):
    out = []
    for c in task.conc or []:
        t = copy.copy(task)
        t.__dict__ = dict(task.__dict__)
        ps = []
        for p in task.params:
            if p.name in c:
                p = copy.copy(p)
                p.val = c[p.name]
            ps.append(p)
        t.params = ps
        t.name = task.name + "@" + ",".join("%s=%s" % kv for kv in sorted(c.items()) if not isinstance(kv[1], (list, tuple)))
        out.append(t)
    return out


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def baseline():
    """contracts that are discharged on the unchanged tree (contracts/baseline.json, written by tools/baseline.py)"""
    p = os.path.join(ROOT, "contracts", "baseline.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)


def build_all(prop, need_native=True):
    with cf.ThreadPoolExecutor(8) as ex:
        irs = [ex.submit(build.ir, os.path.join(build.HARN, h)) for h in prop.harness]
        irs += [ex.submit(build.ir, os.path.join(build.HARN, "rt.cc"))]
        irs += [ex.submit(build.ir, os.path.join(build.REPO, "src", s), build.DEF, ".src") for s in prop.sources]
        nat = ex.submit(build.native, [os.path.join(build.HARN, h) for h in prop.harness] +
                        [os.path.join(build.REPO, "src", s) for s in prop.sources + prop.extra_native],
                        "native.so", build.DEF + ["-DNATIVE"], prop.libs) if need_native else None
        paths = [f.result() for f in irs]
        natp = nat.result() if nat else None
    return paths, natp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--task")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    prop = mod.PROP
    os.makedirs(REPL, exist_ok=True)
    if a.replay:
        return replay(prop, a.replay)
    try:
        paths, natp = build_all(prop, any(t.lemma is None for t in prop.tasks))
    except build.BuildError as e:
        path = os.path.join(REPL, "%s-build.json" % pid)
        lab = "the functions under contract compile with the wrappers that call them"
        with open(path, "w") as f:
            json.dump({"property": pid, "contract": "*", "failed_obligation": lab, "detail": str(e)[-3000:]}, f, indent=1)
        print(str(e)[-3000:])
        write_evidence(prop, a.tier, [], {}, [1], time.time() - t0, "harness build failed: " + str(e)[-1500:])
        print("obligation: * / " + lab)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    tb = time.time() - t0
    sha = hashlib.sha256(b"".join(open(p, "rb").read() for p in paths)).hexdigest()
    base = baseline().get(pid, {})
    same = base.get("ir") == sha
    mods = [irload.Module(p) for p in paths]
    tasks = [t for t in prop.tasks if not a.task or a.task in t.name]
    tier = a.tier
    deep = 1 if tier == "quick" else 3
    if tier != "quick":
        for t in tasks:
            t.solver_timeout = max(t.solver_timeout, 20000)
    limit = (lambda k: next(t for t in tasks if t.name == k[0]).timeout * deep)
    jobs = [((t.name,), (lambda t=t: run_task(prop, t, mods, tier))) for t in tasks if not t.native_only]
    raw = pool(jobs, 8, limit)
    results = {}
    for t in tasks:
        r = raw.get((t.name,))
        if t.native_only:
            r = Result(t)
            r.status = "bounded"
        elif not isinstance(r, Result):
            msg = r
            r = Result(t)
            r.status = "unsupported"
            r.error = "%s: %s" % (msg[0], msg[1])
        results[t.name] = r
    # what ran out of time is tried once more, alone
    again = [t for t in tasks if not t.native_only and results[t.name].status in ("unsupported", "unknown") and t.name in base.get("proved", []) and
             (same or "timeout" in str(results[t.name].error) or results[t.name].status == "unknown")]
    if again and len(again) <= 8 and time.time() - t0 < 300:
        for t in again:
            t.solver_timeout *= 2
        raw = pool([((t.name,), (lambda t=t: run_task(prop, t, mods, tier))) for t in again], 4, lambda k: min(limit(k) * 2, 280 * deep))
        for t in again:
            r = raw.get((t.name,))
            if isinstance(r, Result):
                results[t.name] = r
    # bounded stand-ins for what the verifier could not decide
    und = [t for t in tasks if results[t.name].status in ("unsupported", "unknown")]
    cl = []
    for t in und:
        for c in bounded_clones(t):
            cl.append((t, c))
    raw2 = pool([((t.name, c.name), (lambda c=c: run_task(prop, c, mods, tier))) for t, c in cl], 8,
                lambda k: 100 * deep)
    for t, c in cl:
        r = raw2.get((t.name, c.name))
        if isinstance(r, Result):
            results[t.name].__dict__.setdefault("bounded", []).append((c.name, r.status, len(r.obs), r.error))
            results[t.name].cex += r.cex
            if r.status == "refuted":
                results[t.name].status = "refuted"
                results[t.name].bad = getattr(r, "bad", [])
                results[t.name].obs += r.obs
    # replay / random cross-check against the native code
    def nat_job(t):
        def f():
            nat = Native(natp)
            rng = random.Random(SEED * 1000003 + hash_name(t.name))
            r = results[t.name]
            if r.status == "proved":
                n, budget = t.nrandom * deep, 15 * deep
            else:
                n, budget = t.max_random * deep, 60 * deep
            return search(t, nat, rng, r.cex, budget, n) + (t.__dict__.get("native_ok", 0),)
        return f
    raw3 = pool([((t.name,), nat_job(t)) for t in tasks if t.lemma is None], 8, lambda k: 150 * deep)
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    viol, known, notes = [], [], []
    for t in tasks:
        r = results[t.name]
        n3 = raw3.get((t.name,))
        found = None
        if isinstance(n3, tuple) and len(n3) == 3:
            found, tried, okn = n3
            r.native = {"tried": tried, "precondition_met": okn}
        elif n3 is not None:
            r.native = {"error": str(n3)[-800:]}
        if found:
            inp, lab, det = found
            k = match_known(kf, t.name, lab)
            if k:
                known.append((k, t, lab))
                continue
            path = write_replay(prop, t, inp, lab, det, r)
            viol.append((t, path, lab, True))
        elif r.status == "refuted" or (r.status != "proved" and not t.native_only and t.name in base.get("proved", []) and not same):
            # an obligation that the verifier refutes, or one that it discharges on the tree it was written for and
            # cannot discharge on this (different) code.  (Identical compiled code: the machine ran out of time.)
            lab = r.bad[0][0] if getattr(r, "bad", None) else "every obligation is discharged (%s)" % (r.error or r.status)[:200]
            k = match_known(kf, t.name, lab)
            if k:
                known.append((k, t, lab))
                continue
            path = write_replay(prop, t, None, lab, None, r)
            viol.append((t, path, lab, False))
    for t in tasks:
        r = results[t.name]
        if a.v or r.status != "proved":
            print("%-46s %-11s obs=%-4d paths=%-3d %.1fs native=%s %s" % (
                t.name, r.status, len(r.obs), r.paths, r.time, r.native, (r.error or "")[:300]))
            if r.status in ("refuted", "unknown") and getattr(r, "bad", None):
                for b in r.bad:
                    print("     ", b[:3], b[3][:400 if not a.v else 3000])
                    if a.v:
                        for c in b[4]:
                            print("          pc:", c)
            if a.v and getattr(r, "tb", None):
                print(r.tb)
            for b in r.__dict__.get("bounded", []):
                print("      bounded", b)
    write_evidence(prop, tier, tasks, results, viol, time.time() - t0, None, tb, sha)
    for k, t, lab in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for t, path, lab, inp in viol:
        print("obligation: %s / %s" % (t.name, lab))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if inp else " no-failing-input-found"))
    n = sum(len(r.obs) for r in results.values())
    d = sum(1 for r in results.values() for o in r.obs if o[2] == "proved")
    if any("error" in r.native for r in results.values() if isinstance(r.native, dict)):
        print("NOTE: the native replay failed: " + next(r.native["error"] for r in results.values() if isinstance(r.native, dict) and "error" in r.native)[-600:])
    print("%s: %d contracts, %d/%d obligations discharged, %d undecided contracts, %.1fs" % (
        pid, len(tasks), d, n, len([1 for t in tasks if results[t.name].status != "proved"]), time.time() - t0))
    return 1 if viol else 0


def hash_name(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def match_known(kf, tname, lab):
    for k in kf:
        if k.get("task") == tname and (k.get("obligation") in (None, lab)):
            return k
    return None


def write_replay(prop, t, inp, lab, det, r):
    path = os.path.join(REPL, "%s-%s.json" % (prop.id, "".join(c if c.isalnum() else "_" for c in t.name)))
    d = {"property": prop.id, "contract": t.name, "function": t.fn, "failed_obligation": lab, "detail": str(det),
         "verifier": [list(map(str, b)) for b in getattr(r, "bad", [])], "status": r.status}
    if inp is not None:
        d["inputs"] = {"scalars": inp.sc, "arrays": inp.ar}
        d["how"] = "./check %s --replay %s" % (prop.id, path)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def replay(prop, path):
    d = json.load(open(path))
    t = next(t for t in prop.tasks if t.name == d["contract"])
    if "inputs" not in d:
        print("no failing input recorded; failed obligation: " + d["failed_obligation"])
        return 1
    _, natp = build_all(prop)
    i = Inputs()
    i.sc, i.ar = d["inputs"]["scalars"], d["inputs"]["arrays"]
    r = probe(t, Native(natp), i)
    print("inputs:", d["inputs"])
    print("result:", r)
    return 0 if r == ("ok", True) else 1


def write_evidence(prop, tier, tasks, results, viol, wall, err=None, tb=0, sha=None):
    obs = [o for r in results.values() for o in r.obs]
    disch = [o for o in obs if o[2] == "proved"]
    byb = {}
    for o in disch:
        byb[o[3]] = byb.get(o[3], 0) + 1
    called, ext, loops = set(), set(), []
    for r in results.values():
        called |= set(r.called)
        ext |= set(r.ext)
        loops += r.loops
    real = sorted(c for c in called if not c.startswith(("std::", "__gnu", "void std::", "bool std::", "w_")) and "std::" not in c.split("(")[0])
    proved = [t.name for t in tasks if results[t.name].status == "proved"]
    und = [t for t in tasks if results[t.name].status != "proved"]
    fullproof = bool(tasks) and not und
    stats = {}
    for r in results.values():
        for k, x in r.stats.items():
            stats[k] = stats.get(k, 0) + x
    ass = ["doubles are treated as mathematical reals; literal constants equal up to 1e-12 relative rounding",
           "machine integers are treated as mathematical integers; truncation, negative zero-extension and size overflow are obligations",
           "clang 18 front end and the sroa/early-cse/simplifycfg passes are trusted to preserve the meaning of the source",
           "the verifier (/verif/engine), z3 and cvc5 are trusted"]
    ass += list(prop.assumptions)
    if ext:
        ass.append("assumed contracts of external functions: " + ", ".join(sorted(x[:70] for x in ext)))
    d = {"property": prop.id, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": SEED,
         "level": "proof" if fullproof else "other",
         "wall_s": round(wall, 2),
         "coverage": {
             "obligations": len(obs), "discharged": len(disch),
             "checker_cmd": "./check %s --tier %s" % (prop.id, tier),
             "trusted_base": ["engine/*.py", "z3 5", "cvc5 1.1.2", "clang 18 / LLVM 18 reader", "harness wrappers (harness/*.cc)"],
             "back_ends": byb,
             "contracts": {t.name: {"status": results[t.name].status, "obligations": len(results[t.name].obs),
                                    "paths": results[t.name].paths, "seconds": round(results[t.name].time, 2),
                                    "native_cross_check": results[t.name].native,
                                    "what": t.what or "",
                                    "error": results[t.name].error,
                                    "bounded": results[t.name].__dict__.get("bounded", [])} for t in tasks},
             "functions_executed_from_source": real,
             "loops_closed_by_invariant": sorted(set(loops)),
             "solver": {k: (round(x, 2) if isinstance(x, float) else x) for k, x in stats.items()},
             "compiled_code_sha256": sha,
             "build_s": round(tb, 2)},
         "assumptions": ass,
         "violations": len(viol)}
    if err:
        d["coverage"]["error"] = err
    d["coverage"]["explanation"] = (
        "every contract below was discharged by the deductive verifier for all inputs" if fullproof else
        "contracts with status 'proved' were discharged for all inputs; those listed in bounded_or_undecided were only "
        "covered by bounded clones and native random inputs and are not counted as proved")
    if und:
        d["coverage"]["bounded_or_undecided"] = [t.name for t in und]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop.id + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("UNDECIDED: internal error of the check")
        rc = 0
    sys.stdout.flush()
    sys.exit(rc)
