"""check PROPERTY [--tier quick|thorough] : run every contract of the property
against /repo's current tree, write the evidence file, report the verdict.

   python -m vf.run check C03
   python -m vf.run replay FILE
"""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for p in (REPO, VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)
os.environ.setdefault("MPLBACKEND", "Agg")

import vf  # noqa
from vf import core, shim, solve, api  # noqa
from vf.core import Explorer, Conc, Reject, Unsupported  # noqa

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def _conc(h, param, values=None, rng=None, jitter=0.0):
    """One concrete run.  Returns (failures, ctx, info) ; failures None = rejected."""
    c = Conc(values=values, rng=rng, jitter=jitter)
    core.CUR = c
    import numpy as np
    st = np.random.get_state()
    np.random.seed((rng.randrange(2**31) if rng else 12345))
    try:
        with shim.patcher(c):
            if param is None:
                h.fn(c)
            else:
                h.fn(c, param)
        return c.failures, c, ""
    except (Reject, core.Infeasible):
        return None, c, ""
    except Unsupported as e:
        return None, c, f"unsupported: {e}"
    except Exception as e:
        return [f"exception {type(e).__name__}: {str(e)[:200]}"], c, traceback.format_exc(limit=-5)
    finally:
        core.CUR = None
        np.random.set_state(st)


def _used(c):
    return {k: (float(v) if not isinstance(v, (bool, int, str)) else v) for k, v in c.used.items()}


def _confirm(h, param, model, tries, rng, want=None, tmax=20.0):
    """Replay a model on the real code; widen with jitter and random search."""
    t = time.time()
    for i in range(tries):
        if time.time() - t > tmax:
            break
        if i == 0:
            vals, jit = dict(model), 0.0
        elif i % 3 == 1:
            vals, jit = dict(model), 10 ** rng.uniform(-9, -1)
        elif i % 3 == 2:
            # keep the discrete choices and a random half of the numbers
            vals = {k: v for k, v in model.items() if k.startswith("?") or rng.random() < 0.5}
            jit = 0.0
        else:
            vals, jit = {k: v for k, v in model.items() if k.startswith("?")}, 0.0
        f, c, info = _conc(h, param, vals, random.Random(rng.random()), jit)
        if f:
            return f, _used(c), info
    return None


def task(args):
    prop, name, pi, tier, limit, nconc, hard, symbolic = args
    limit = max(5.0, min(limit, hard - time.time()))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    hs = api.load(prop)
    h = hs[name]
    param = h.params[pi]
    label = name if param is None else f"{name}[{param}]"
    rng = random.Random(SEED * 7919 + pi * 131 + sum(map(ord, name)))
    solve.STATS.clear()
    shim.USED.clear()
    fn = (lambda c: h.fn(c)) if param is None else (lambda c: h.fn(c, param))
    ex = Explorer(fn, budget=h.budget * (1 if tier == "quick" else 3), max_paths=h.max_paths,
                  deadline=t0 + min(h.deadline or limit, limit), feas=h.feas, max_depth=h.max_depth)
    out = {"harness": label, "functions": h.functions, "obligations": [], "unsupported": [], "errors": [],
           "violations": [], "paths": 0, "assumes": h.assumes, "note": h.note, "bound": h.bound}
    def alarm(*a):
        raise Unsupported("time limit of the symbolic run")
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, min(h.deadline or limit, limit) + 20, 15)
    try:
        if not symbolic:
            raise Unsupported("the symbolic run was ended after it overran its time limit")
        if h.conc != 0:
            # a few executions first: a contract that fails on them needs no proof attempt
            prng, tp = random.Random(SEED + pi), time.time()
            for i in range(40):
                if h.executed or time.time() - tp > 4.0:
                    break
                f, c, info = _conc(h, param, None, random.Random(prng.random()))
                if f:
                    _add_conc(out, label, f, c, info)
                    raise Unsupported("no symbolic run: the contract fails when executed")
        if not h.executed:
            ex.run(shim.patcher)
            if ex.paths and not ex.completed and not ex.unsupported and not ex.errors:
                raise Unsupported("no path reached the end of the contract")
    except Unsupported as e:
        ex.unsupported.append(str(e))
    except Exception as e:
        ex.unsupported.append(f"engine: {type(e).__name__}: {e}")
        out["engine_trace"] = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    t_sym = time.time() - t0
    # collect per obligation name
    byname = {}
    for o in ex.obls:
        d = byname.setdefault(o.name, {"name": f"{label}/{o.name}", "vcs": 0, "proved": 0, "failed": 0, "unknown": 0,
                                       "backends": {}, "seconds": 0.0})
        d["vcs"] += 1
        d[o.status] += 1
        if o.status == "proved":
            d["backends"][o.backend] = d["backends"].get(o.backend, 0) + 1
        d["seconds"] = round(d["seconds"] + o.seconds, 3)
    out["obligations"] = list(byname.values())
    out["covers"] = dict(ex.covers)
    out["paths"] = ex.paths
    out["infeasible"] = ex.infeasible
    uns = {}
    for u in ex.unsupported:
        uns[u] = uns.get(u, 0) + 1
    out["unsupported"] = [f"{k} (x{v})" for k, v in uns.items()]
    # violations ------------------------------------------------------
    bad = [o for o in ex.obls if o.status != "proved"]
    seen = set()
    for o in sorted(bad, key=lambda o: o.status != "failed"):
        if o.name in seen and o.status != "failed":
            continue
        if sum(1 for v in out["violations"] if v["obligation"] == f"{label}/{o.name}") >= 1:
            continue
        seen.add(o.name)
        rep = None
        if h.conc != 0:
            rep = _confirm(h, param, o.model or {}, 60 if tier == "quick" else 400, rng, tmax=20.0 if time.time() < hard + 60 else 3.0)
        v = {"obligation": f"{label}/{o.name}", "status": o.status, "path": o.path, "goal": o.detail,
             "backend": o.backend, "model": _clean(o.model)}
        if rep:
            v.update(confirmed=True, input=rep[1], fails=rep[0], trace=rep[2])
        elif o.status != "failed":
            # the solvers gave up: undecided, not refuted
            out["unsupported"].append(f"undecided by the solvers: {o.name}")
            continue
        else:
            v["confirmed"] = False
        out["violations"].append(v)
    for (what, where, md, tb) in ex.errors:
        rep = _confirm(h, param, md, 60, rng, tmax=20.0) if h.conc != 0 else None
        if rep:
            out["violations"].append({"obligation": f"{label}/no-exception", "status": "failed", "path": [], "goal": what + " at " + where,
                                      "backend": "execution", "model": _clean(md), "confirmed": True, "input": rep[1], "fails": rep[0], "trace": rep[2]})
        else:
            out["errors"].append(f"{what} at {where}")
            if what.split(":")[0] in ("TypeError", "AttributeError", "NameError") or "/vf/" in where:
                out["unsupported"].append(f"symbolic run raised {what} at {where}")
            else:
                out["violations"].append({"obligation": f"{label}/no-exception", "status": "failed", "path": [], "goal": what + " at " + where,
                                          "backend": "execution", "model": _clean(md), "confirmed": False, "trace": tb})
    # cross-check: models of the covers on the real code -----------------
    cc = 0
    t1 = time.time()
    n, rej, ccov, samples = 0, 0, set(), []
    if h.conc != 0:
        for (cn, md) in ex.samples:
            f, c, info = _conc(h, param, dict(md), random.Random(1))
            if f is None:
                continue
            cc += 1
            ccov |= c.notes.get("covers", set())
            if f and not out["violations"]:
                _add_conc(out, label, f, c, info)
        want = h.conc if h.conc is not None else nconc
        full = not (out["unsupported"] or bad)
        tmax = (20.0 if h.executed else 8.0 if full else 40.0) if tier == "quick" else (60.0 if full else 300.0)
        tmax = min(tmax, max(5.0, hard + 100 - time.time()))
        if not full:
            want *= 10
        if tier != "quick" and h.conc is not None:
            want *= 10
        for i in range(want * 4):
            if n >= want or time.time() - t1 > tmax:
                break
            f, c, info = _conc(h, param, None, random.Random(rng.random()))
            if f is None:
                rej += 1
                if info and rej == 1:
                    out["conc_note"] = info
                continue
            n += 1
            ccov |= c.notes.get("covers", set())
            if len(samples) < 2:
                samples.append(_used(c))
            if f and not any(v.get("confirmed") for v in out["violations"]):
                _add_conc(out, label, f, c, info)
                break
    for k, ok in ex.covers.items():
        if not ok and k not in ccov and not ex.unsupported and not ex.errors and not bad:
            out["violations"].append({"obligation": f"{label}/reachable:{k}", "status": "failed", "path": [], "goal": "cover not reachable",
                                      "backend": "z3", "model": {}, "confirmed": False})
    out.update(crosschecks=cc, concrete=n, rejected=rej, concrete_covers=sorted(ccov), samples=samples,
               stats={k: dict(v) for k, v in solve.STATS.items()}, numpy=sorted(shim.USED), solver_s=ex.solver_s,
               t_sym=t_sym, wall=time.time() - t0)
    return out


def _child(job, conn):
    try:
        r = task(job)
    except BaseException as e:
        r = f"{type(e).__name__}: {e}"
    try:
        conn.send(r)
    except BaseException as e:
        conn.send(f"{type(e).__name__}: {e}")
    conn.close()
    os._exit(0)


def schedule(jobs, workers):
    """Run the jobs in forked processes.  A job that crashes is retried once; one that
    overruns its time limit (a solver call that does not come back) is ended and its
    contract is then only executed concretely (job[-1] False: no symbolic run)."""
    ctx = mp.get_context("fork")
    todo = [(j + (True,), 0) for j in jobs][::-1]
    running, results, crashed = {}, [], []
    sure = False
    while todo or running:
        while todo and len(running) < workers:
            job, tries = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(job, b))
            pr.start()
            b.close()
            limit, hard = job[4], job[6]
            sym = max(5.0, min(limit, hard - time.time())) if job[7] else 0.0
            running[a] = (pr, job, tries, time.time() + sym + 110)
        ready = mp.connection.wait(list(running), timeout=1.0)
        for a in ready:
            pr, job, tries, end = running.pop(a)
            try:
                r = a.recv()
            except BaseException as e:
                r = f"{type(e).__name__}: {e}"
            pr.join(5)
            if pr.is_alive():
                pr.kill()
            if not isinstance(r, str):
                results.append(r)
                if not sure and any(v.get("confirmed") for v in r["violations"]):
                    # decided: a violation replayed on the real code; do not
                    # start other symbolic runs, give the running ones a while
                    sure = True
                    todo = [(j[:7] + (False,), t) for j, t in todo]
                    running = {a: (p, j, t, min(e, time.time() + 45)) for a, (p, j, t, e) in running.items()}
            elif tries < 1 and time.time() < job[6]:
                todo.insert(0, (job, tries + 1))
            elif job[7]:
                todo.append((job[:7] + (False,), 1))
            else:
                crashed.append((job, r))
        for a in [a for a in running if time.time() > running[a][3]]:
            pr, job, tries, end = running.pop(a)
            pr.kill()
            pr.join()
            if job[7]:
                todo.append((job[:7] + (False,), 1))
            else:
                crashed.append((job, "time limit"))
    return results, crashed


def _add_conc(out, label, f, c, info):
    out["violations"].append({"obligation": f"{label}/{f[0]}", "status": "failed", "path": [], "goal": "concrete execution of the contract",
                              "backend": "CPython", "model": {}, "confirmed": True, "input": _used(c), "fails": f, "trace": info})


def _clean(m):
    return {k: (v if isinstance(v, (bool, int, float, str)) else str(v)) for k, v in (m or {}).items()}


def check(prop, tier):
    t0 = time.time()
    hs = api.load(prop)
    meta = api.META.get(prop, {})
    only = os.environ.get("VF_ONLY")
    jobs = []
    limit = 240 if tier == "quick" else 2400
    nconc = 150 if tier == "quick" else 3000
    for n, h in hs.items():
        if only and only not in n:
            continue
        if h.tier == "thorough" and tier == "quick":
            continue
        for pi in range(len(h.params)):
            jobs.append((prop, n, pi, tier, limit, nconc, t0 + (540 if tier == "quick" else 7200)))
    workers = min(8, max(1, len(jobs)), int(os.environ.get("VF_JOBS", "8")))
    results, crashed = schedule(jobs, workers)
    results.sort(key=lambda r: r["harness"])
    extra = []
    for f in meta.get("extra", []):
        extra.append(f(tier))
    obl = sum(len(r["obligations"]) for r in results if not r["bound"])
    bobl = [o for r in results for o in r["obligations"] if r["bound"]]
    full = [o for r in results for o in r["obligations"] if not r["bound"] and o["failed"] == 0 and o["unknown"] == 0 and not r["unsupported"]]
    vcs = sum(o["vcs"] for r in results for o in r["obligations"])
    vcs_ok = sum(o["proved"] for r in results for o in r["obligations"])
    backends = {}
    for r in results:
        for o in r["obligations"]:
            for b, c in o["backends"].items():
                backends[b] = backends.get(b, 0) + c
    stats = {}
    for r in results:
        for b, s in r["stats"].items():
            d = stats.setdefault(b, {"calls": 0, "unsat": 0, "sat": 0, "unknown": 0, "seconds": 0.0})
            for k in d:
                d[k] = round(d[k] + s[k], 3)
    bounded = [{"harness": r["harness"], "why": r["unsupported"][:5], "concrete_executions": r["concrete"]} for r in results if r["unsupported"]]
    bounded += [{"harness": r["harness"], "bound": r["bound"], "obligations": len(r["obligations"]),
                 "discharged_within_bound": sum(1 for o in r["obligations"] if o["failed"] == 0 and o["unknown"] == 0)} for r in results if r["bound"]]
    viols = [v for r in results for v in r["violations"]]
    for e in extra:
        viols += e.get("violations", [])
    trusted = ["the vf engine (path enumeration by re-execution of the real code on proxy values; vf/core.py, vf/shim.py), cross-checked against CPython on every run",
               "z3 5.3.2, cvc5 1.4.2",
               "machine floats treated as mathematical reals",
               "sin/cos/arccos/arcsin/log/exp known only by their defining identities and monotonicity"]
    np_used = sorted({u for r in results for u in r["numpy"]})
    if np_used:
        trusted.append("numpy contracts (vf/shim.py): " + ", ".join(np_used))
    trusted += sorted({a for r in results for a in r["assumes"]}) + meta.get("trusted", [])
    for e in extra:
        trusted += e.get("trusted", [])
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": meta.get("level", "proof"),
          "coverage": {
              "obligations": obl + sum(e.get("obligations", 0) for e in extra),
              "discharged": len(full) + sum(e.get("discharged", 0) for e in extra),
              "verification_conditions": vcs, "verification_conditions_discharged": vcs_ok,
              "paths": sum(r["paths"] for r in results),
              "checker_cmd": f"./check {prop}" + ("" if tier == "quick" else " --tier thorough"),
              "trusted_base": trusted,
              "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
              "discharged_by": backends, "solver": stats,
              "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
              "bounded_obligations": len(bobl),
              "bounded": bounded,
              "crosschecked_models": sum(r["crosschecks"] for r in results),
              "concrete_executions": sum(r["concrete"] for r in results),
              "harnesses": [{k: r[k] for k in ("harness", "paths", "infeasible", "covers", "crosschecks", "concrete", "rejected", "t_sym", "wall")}
                            | {"obligations": [f"{o['name'].split('/', 1)[1]}: {o['proved']}/{o['vcs']}" for o in r["obligations"]]} for r in results],
              "samples": [s for r in results for s in r["samples"]][:3],
          },
          "assumptions": meta.get("assumptions", []) + [f"{r['harness']}: {r['note']}" for r in results if r["note"]],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    for e in extra:
        ev["coverage"].update(e.get("coverage", {}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    verbose = os.environ.get("VF_VERBOSE")
    for r in results:
        bad = [o["name"].split("/", 1)[1] + f"({o['failed']}f,{o['unknown']}u)" for o in r["obligations"] if o["failed"] or o["unknown"]]
        miss = [k for k, ok in r["covers"].items() if not ok and k not in r["concrete_covers"]]
        missc = [k for k in r["covers"] if k not in r["concrete_covers"]]
        print(f"{r['harness']}: {len(r['obligations'])} obligations, {r['paths']} paths, {r['wall']:.1f}s (sym {r['t_sym']:.1f}), conc {r['concrete']}/{r['crosschecks']}"
              + (f" NOT DISCHARGED {bad}" if bad else "") + (f" UNREACHED {miss}" if miss else "")
              + (f" (concretely unreached {missc})" if verbose and missc else "")
              + (f" BOUNDED: {r['unsupported'][:3]}" if r["unsupported"] else "") + (f" ERR {r['errors'][:2]}" if r["errors"] else ""))
        if verbose:
            for o in r["obligations"]:
                if o["seconds"] > 1:
                    print("      ", o["name"], o["seconds"], o["backends"])
        if verbose and "engine_trace" in r:
            print(r["engine_trace"])
    rc = 0
    for line in known(prop):
        print(line)
    if viols:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        viols.sort(key=lambda v: not v.get("confirmed"))
        for i, v in enumerate(viols[:8]):
            path = os.path.join("out", f"{prop}-{i}.json")
            v["property"] = prop
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"  failed obligation {v['obligation']} ({v['status']} by {v['backend']}): {str(v.get('fails') or v['goal'])[:300]}")
        if viols[0].get("confirmed"):
            print(f"VIOLATION property={prop} replay=out/{prop}-0.json")
        else:
            print(f"VIOLATION property={prop} replay=out/{prop}-0.json no-failing-input-found")
        rc = 1
    elif crashed:
        print("ERROR: harness crashed", crashed)
        rc = 2
    elif obl + len(bobl) + sum(e.get("obligations", 0) for e in extra) == 0:
        print("ERROR: no obligations were generated")
        rc = 3
    tot = ev["coverage"]
    print(f"{prop}: {tot['discharged']}/{tot['obligations']} obligations discharged ({vcs_ok}/{vcs} VCs), {len(bobl)} bounded obligations, {sum(1 for b in bounded if "why" in b)} fallbacks, {ev['wall_s']}s")
    return rc


def known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return
    for l in open(p):
        l = l.strip()
        if not l:
            continue
        d = json.loads(l)
        if d.get("property") == prop and d.get("status") == "known":
            yield f"KNOWN-FINDING: property={prop} {d['what']}"


def replay(path):
    v = json.load(open(path))
    ob = v["obligation"]
    label = ob.split("/")[0]
    name, _, ps = label.partition("[")
    hs = api.load(v["property"])
    h = hs[name]
    param = None
    for p in h.params:
        if ps and f"[{p}]" == "[" + ps:
            param = p
    if not v.get("confirmed"):
        print("no failing input: obligation", ob, v["status"])
        print(v.get("goal"))
        print(json.dumps(v.get("model"), indent=1))
        return 1
    f, c, info = _conc(h, param, v["input"], random.Random(1))
    print("input:", json.dumps(_used(c), indent=1))
    print("failing:", f)
    print(info)
    return 1 if f else 0


def main(argv):
    if argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return check(argv[1], tier)
    if argv[0] == "replay":
        return replay(argv[1])
    return 64


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
