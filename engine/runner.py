"""Runs the harnesses of one property: discharge, replay, report."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTX = mp.get_context("fork")


def load_contracts():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)


def key_of(h, variant):
    return h.name + ("" if not variant else "[" + ",".join("%s=%s" % (k, v) for k, v in sorted(variant.items())) + "]")


# ------------------------------------------------------------------------------- work done in child processes
def job_sym(h, variant, contracts, seed, tier, patience=1):
    from . import ctx, smt, registry
    smt.PATIENCE = patience * (2 if tier == "thorough" else 1)
    smt.STATS.update(queries=0, time=0.0, unsat=0, sat=0, unknown=0)
    k = ctx.SymK(seed=seed, contracts=[registry.CONTRACTS[c] for c in contracts], budget=h.budget * (3 if tier == "thorough" else 1) * patience, generic=h.generic)
    res = {"undecided": None}
    t0 = time.time()
    try:
        k.explore(h.fn, variant)
    except (ctx.Undecided, ctx.Unsupported, ctx.TooBig) as e:
        res["undecided"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()
    except ctx.Reject:
        pass
    except Exception as e:
        res["undecided"] = "engine: %s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()
    res["obligations"] = [o.d() for o in k.obligations]
    res["paths"] = k.paths
    res["contract_uses"] = k.contract_uses
    res["stats"] = dict(smt.STATS)
    res["wall"] = time.time() - t0
    return res


def run_concrete(h, variant, env=None, rng=None, perturb=0.0):
    """one concrete execution; returns (values, Mismatch|None) or None if the input is outside the precondition"""
    from . import ctx
    if h.fresh:
        world = ctx.loader.World({}, sym=False)
    else:
        world = ctx.real_world()
    k = ctx.ConK(env=env, rng=rng, world=world, perturb=perturb)
    try:
        h.fn(k, **variant)
        return k, None
    except ctx.Reject:
        return None
    except ctx.Mismatch as m:
        return k, m
    except ctx.Unsupported:     # a harness that is symbolic only
        return None
    except Exception as e:
        what = ctx.raised_by_code(e)
        if what is not None and h.mode != "sym":
            return k, ctx.Mismatch("no exception", what, "a result")
        what = ctx.misshapen(e)
        if what is None:
            raise
        if h.mode == "sym":         # the harness itself is symbolic-only: nothing to replay
            return None
        return k, ctx.Mismatch("shape of the result", what, "the documented attributes and entries")


def confirm(h, variant, values):
    """a mismatch counts only if it persists under relative perturbations of 1e-11 of the input
    (an ill-conditioned evaluation in floating point is not a property violation)"""
    r = run_concrete(h, variant, env=values)
    if r is None or r[1] is None:
        return None
    m0 = r[1]
    for p in (1e-11, -1e-11, 2e-12):
        r = run_concrete(h, variant, env=values, perturb=p)
        if r is None:
            continue
        if r[1] is None:
            if m0.err is None:
                continue
            return None
        if m0.err is not None and r[1].err is not None and r[1].label == m0.label:
            if abs(r[1].err - m0.err) > 0.2 * m0.err:
                return None
    return m0


def job_con(h, variant, seed, runs, budget, envs):
    """replays the given inputs, then explores at random"""
    res = {"runs": 0, "rejected": 0, "violation": None, "error": None, "checked": 0, "replayed": 0, "unstable": 0}
    t0 = time.time()
    try:
        for label, env in envs:
            if res["replayed"] and time.time() - t0 > budget / 2:
                break
            r = run_concrete(h, variant, env=env)
            res["replayed"] += 1
            if r is not None and r[1] is not None:
                m = confirm(h, variant, r[0].values)
                if m is not None:
                    res["violation"] = {"input": r[0].values, "label": m.label, "got": repr(m.got)[:2000], "want": repr(m.want)[:2000], "from": label}
                    return res
        rng = random.Random("%s/%s/%s" % (seed, h.name, sorted(variant.items())))
        while res["runs"] < runs and time.time() - t0 < budget and res["rejected"] < 20 * runs + 200:
            r = run_concrete(h, variant, rng=rng)
            if r is None:
                res["rejected"] += 1
                continue
            res["runs"] += 1
            res["checked"] += r[0].checked
            if not r[0].values and r[1] is None and res["runs"] >= 2:
                break
            if r[1] is not None:
                m = confirm(h, variant, r[0].values)
                if m is None:
                    res["unstable"] += 1
                    continue
                res["violation"] = {"input": r[0].values, "label": m.label, "got": repr(m.got)[:2000], "want": repr(m.want)[:2000], "from": "exploration"}
                return res
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


def _child(conn, fn, args):
    try:
        os.setpgrp()
        sys.setrecursionlimit(20000)
        r = fn(*args)
    except BaseException as e:
        r = {"undecided": "crash: %s: %s" % (type(e).__name__, e), "error": "crash: %s" % e, "tb": traceback.format_exc(), "obligations": [], "violation": None}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({"undecided": "unpicklable: %s" % e, "error": "unpicklable: %s" % e, "obligations": [], "violation": None})
    conn.close()
    os._exit(0)


class Pool:
    def __init__(self, n):
        self.n = n
        self.queue, self.active, self.done = [], [], {}

    def add(self, key, fn, args, timeout):
        self.queue.append((key, fn, args, timeout))

    def run(self, deadline):
        while self.queue or self.active:
            while self.queue and len(self.active) < self.n:
                key, fn, args, timeout = self.queue.pop(0)
                a, b = CTX.Pipe(False)
                p = CTX.Process(target=_child, args=(b, fn, args))
                p.start()
                b.close()
                self.active.append((key, p, a, time.time() + timeout))
            time.sleep(0.004)
            still = []
            for key, p, a, tend in self.active:
                if a.poll():
                    try:
                        self.done[key] = a.recv()
                    except EOFError:
                        self.done[key] = {"undecided": "worker died", "error": "worker died", "obligations": [], "violation": None}
                    p.join()
                elif not p.is_alive():
                    self.done[key] = {"undecided": "worker died", "error": "worker died", "obligations": [], "violation": None}
                    p.join()
                elif time.time() > min(tend, deadline):
                    p.kill()
                    p.join()
                    self.done[key] = {"undecided": "time limit", "error": "time limit", "obligations": [], "violation": None}
                else:
                    still.append((key, p, a, tend))
            self.active = still
        d, self.done = self.done, {}
        return d


def closure(contracts, reg):
    """contracts needed to verify these contracts, callees first"""
    out = []

    def visit(c):
        if c in out:
            return
        for d in reg.HARNESSES[reg.CONTRACTS[c].harness].contracts:
            if d != c:
                visit(d)
        out.append(c)
    for c in contracts:
        visit(c)
    return out


def proved(r):
    return r is not None and not r.get("undecided") and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])


def check_property(prop, tier, seed, out=sys.stdout, jobs=None, only=None):
    from . import registry as reg
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT", 780 if tier == "quick" else 3000))
    deadline = t0 + limit
    load_contracts()
    # import third-party libraries once, before forking
    import numpy, sympy, astropy.units, scipy.optimize, scipy.integrate, scipy.interpolate  # noqa
    hs = [h for h in reg.HARNESSES.values() if prop in h.props and (only is None or only in h.name)]
    if not hs:
        print("no harness for", prop, file=out)
        return 2
    pool = Pool(jobs or int(os.environ.get("VERIF_JOBS", "8")))
    need = closure([c for h in hs for c in h.contracts], reg)
    verified, contract_results = set(), {}
    # contracts level by level (a contract's harness may itself rely on verified callee contracts)
    pending = list(need)
    while pending:
        ready = [c for c in pending if all(d in verified or d in contract_results or d == c for d in reg.HARNESSES[reg.CONTRACTS[c].harness].contracts)]
        if not ready:
            break
        for c in ready:
            h = reg.HARNESSES[reg.CONTRACTS[c].harness]
            for i, v in enumerate(h.variants):
                pool.add((c, i), job_sym, (h, v, [d for d in h.contracts if d in verified and d != c], seed, tier), h.budget * 2 + 30)
        res = pool.run(deadline)
        for c in ready:
            rs = {i: res[(c, i)] for i in range(len(reg.HARNESSES[reg.CONTRACTS[c].harness].variants))}
            contract_results[c] = rs
            if all(proved(r) for r in rs.values()):
                verified.add(c)
            pending.remove(c)
    # property harnesses
    items = [(h, i, v) for h in hs for i, v in enumerate(h.variants)]
    results = {}
    by_contract = {reg.CONTRACTS[c].harness: c for c in contract_results}
    for h, i, v in items:
        if h.mode == "concrete":
            continue
        c = by_contract.get(h.name)
        if c and i in contract_results[c]:
            results[(h.name, i)] = contract_results[c][i]
            continue
        pool.add((h.name, i), job_sym, (h, v, [d for d in h.contracts if d in verified], seed, tier), h.budget * (3 if tier == "thorough" else 1) * 1.5 + 30)
    results.update(pool.run(deadline))
    # second chance: without callee contracts
    for h, i, v in items:
        r = results.get((h.name, i))
        if r is not None and not proved(r) and h.contracts and any(d in verified for d in h.contracts):
            pool.add((h.name, i), job_sym, (h, v, [], seed, tier), h.budget * 1.5 + 30)
    again = pool.run(deadline)
    for key, r in again.items():
        old = results[key]
        if proved(r) or old.get("undecided"):
            r["note"] = "decided without callee contracts"
            r["obligations_with_contracts"] = [o for o in old["obligations"] if o["status"] != "proved"]
            results[key] = r
        else:
            old["obligations"] += [o for o in r["obligations"] if o["status"] != "proved"]
    # third chance for obligations that are about to be reported: more solver time, fewer jobs at once
    kf, accepted = known_findings(), open_obligations()
    retry = [(h, i, v) for h, i, v in items if failing(prop, h, v, results.get((h.name, i)), kf, accepted)]
    if retry and time.time() < t0 + 0.5 * limit:
        slow = Pool(4)
        for h, i, v in retry[:12]:
            slow.add((h.name, i), job_sym, (h, v, [], seed, tier, 3), 150)
        for key, r in slow.run(min(deadline, time.time() + 200)).items():
            if proved(r) or not r.get("undecided") and len([o for o in r["obligations"] if o["status"] != "proved"]) < len([o for o in results[key]["obligations"] if o["status"] != "proved"]):
                r["obligations_with_contracts"] = [o for o in results[key]["obligations"] if o["status"] != "proved"]
                results[key] = r
    # concrete replay + exploration
    for h, i, v in items:
        r = results.get((h.name, i))
        envs = []
        if r is not None:
            envs = [(o["label"], o["env"]) for o in r["obligations"] if o["status"] == "refuted" and o.get("env")]
            envs += [(o["label"], o["env"]) for o in r.get("obligations_with_contracts", []) if o["status"] == "refuted" and o.get("env")]
        if h.mode == "sym" and not envs:
            continue
        ok = proved(r)
        runs = h.runs if ok else h.runs * 5
        if tier == "thorough":
            runs *= 8
        if h.mode == "sym":
            runs = 0
        tb = (20 if ok else 60) * (5 if tier == "thorough" else 1)
        pool.add((h.name, i), job_con, (h, v, seed, runs, tb, envs[:40]), tb + 60)
    con = pool.run(deadline)
    return report(prop, tier, seed, hs, items, results, con, contract_results, verified, t0, out)


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def open_obligations():
    """obligations of the unchanged tree outside the verifier's reach (bounded stand-ins), by harness and label prefix"""
    p = os.path.join(HERE, "open_obligations.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(x) for x in open(p) if x.strip()]


def failing(prop, h, v, r, kf, accepted):
    """obligations generated, not discharged and not accounted for"""
    if r is None or r.get("undecided"):
        return []
    key = key_of(h, v)
    out = []
    for o in r["obligations"]:
        if o["status"] == "proved" or o["kind"] == "cover":
            continue
        if o["kind"] == "path" and o["status"] == "refuted" and (o.get("note") or "").startswith("raised "):
            # an exception the real code does not raise on the same input: a gap of the executor, not of the code
            # (had the replay raised, it would have been reported with its input)
            continue
        if any(f.get("harness") == key and o["label"].startswith(f["label"]) for f in kf if f.get("status") == "open" and f["property"] == prop):
            continue
        if any(a["harness"] == key and o["label"].startswith(a["label"]) for a in accepted):
            continue
        out.append(o)
    return out


def matches(f, prop, key, viol):
    if f.get("status") != "open" or f["property"] != prop or f.get("harness") != key:
        return False
    return viol["label"].startswith(f["label"])


def report(prop, tier, seed, hs, items, results, con, contract_results, verified, t0, out):
    ev_dir = os.environ.get("VERIF_OUT") or os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    kf, accepted = known_findings(), open_obligations()
    total = disch = 0
    failed_only = []
    by = {}
    solver = 0.0
    undecided, bounded, funcs, violations, known = [], [], set(), [], []
    runs = 0
    samples = []
    nbounded = {}
    for h, i, v in items:
        key = key_of(h, v)
        if h.target:
            funcs.update(x.strip() for x in h.target.split(","))
        r = results.get((h.name, i))
        c = con.get((h.name, i))
        if r is not None:
            seen = set()
            for o in r["obligations"]:
                if o["status"] != "proved":
                    if o["label"] in seen or any(f.get("harness") == key and f["property"] == prop and f.get("status") == "open" and o["label"].startswith(f["label"]) for f in kf):
                        continue
                    seen.add(o["label"])
                if h.bounded:
                    nbounded[key] = nbounded.get(key, 0) + (o["status"] == "proved")
                    continue
                total += 1
                if o["status"] == "proved":
                    disch += 1
                    by[o["how"]] = by.get(o["how"], 0) + 1
                    if len(samples) < 12:
                        samples.append("%s: %s" % (key, o["label"]))
            solver += (r.get("stats") or {}).get("time", 0.0)
            if not proved(r):
                und = sorted(set(o["label"] + (" (" + o["note"].split("\n")[0] + ")" if o.get("note") else "") for o in r["obligations"] if o["status"] != "proved"))
                undecided.append({"harness": key, "reason": r.get("undecided"), "open": und[:20],
                                  "tb": (r.get("tb") or "")[-1500:]})
                if r.get("undecided"):
                    total += 1
        if r is not None and h.bounded:
            bounded.append({"harness": key, "bound": h.bounded, "obligations_discharged_within_the_bound": nbounded.get(key, 0)})
        if c is not None:
            runs += c.get("runs", 0) + c.get("replayed", 0)
            if h.mode == "concrete" or not proved(r):
                bounded.append({"harness": key, "runs": c.get("runs", 0), "bound": h.bounded or "random and special inputs, seed %s" % seed,
                                "error": c.get("error"), "tb": (c.get("tb") or "")[-800:] if c.get("error") else None})
            if c.get("violation"):
                viol = c["violation"]
                f = next((f for f in kf if matches(f, prop, key, viol)), None)
                if f:
                    known.append((f, viol))
                else:
                    violations.append((key, h, v, viol, r))
        bad = failing(prop, h, v, r, kf, accepted)
        if bad and not any(x[0] == key for x in violations):
            failed_only.append((key, h, v, bad, c))
    for c, rs in contract_results.items():
        for r in rs.values():
            solver += (r.get("stats") or {}).get("time", 0.0)
    wall = time.time() - t0
    code = 0
    for f, viol in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), file=out)
    vio_out = []
    for n, (key, h, v, viol, r) in enumerate(violations):
        path = os.path.join(ev_dir, "replay-%s-%d.json" % (prop, n))
        failed = [] if r is None else [o for o in r["obligations"] if o["status"] != "proved"][:10]
        with open(path, "w") as fh:
            json.dump({"property": prop, "harness": h.name, "variant": v, "obligation": viol["label"], "input": viol["input"],
                       "got": viol["got"], "want": viol["want"], "found_by": viol["from"], "failed_obligations": failed,
                       "replay": "/opt/venv/bin/python /verif/check.py --replay %s" % path}, fh, indent=1, default=str)
        print("  %s: %s got %s want %s at %s" % (key, viol["label"], viol["got"][:200], viol["want"][:200], json.dumps(viol["input"])[:400]), file=out)
        print("VIOLATION property=%s replay=%s" % (prop, path), file=out)
        vio_out.append({"harness": key, "obligation": viol["label"], "replay": path})
        code = 1
    # an input for one obligation speaks for the others of the run
    for key, h, v, bad, c in failed_only[:20] if not violations else []:
        path = os.path.join(ev_dir, "replay-%s-%d.json" % (prop, len(vio_out)))
        with open(path, "w") as fh:
            json.dump({"property": prop, "harness": h.name, "variant": v, "obligation": bad[0]["label"], "failed_obligations": bad[:20],
                       "no_failing_input_found": True, "concrete_runs": (c or {}).get("runs")}, fh, indent=1, default=str)
        print("  %s: obligation not discharged: %s (%s) %s" % (key, bad[0]["label"], bad[0]["how"], (bad[0].get("note") or "").split("\n")[0][:200]), file=out)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path), file=out)
        vio_out.append({"harness": key, "obligation": bad[0]["label"], "replay": path, "no_failing_input_found": True})
        code = 1
    ncontr = {c: {"verified": c in verified, "obligations": sum(len(r["obligations"]) for r in rs.values())} for c, rs in contract_results.items()}
    uses = {}
    for r in results.values():
        for c, n in (r.get("contract_uses") or {}).items():
            uses[c] = uses.get(c, 0) + n
    from .assumptions import ASSUMPTIONS, TRUSTED
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": total, "discharged": disch,
                       "checker_cmd": "/opt/venv/bin/python /verif/check.py %s --tier %s" % (prop, tier),
                       "trusted_base": TRUSTED,
                       "discharged_by": by, "solver_time_s": round(solver, 2),
                       "functions_under_contract": sorted(funcs), "callee_contracts": ncontr, "callee_contract_uses": uses,
                       "obligation_samples": samples,
                       "undecided": undecided, "bounded_stand_ins": bounded,
                       "concrete_cross_check_runs": runs,
                       "paths": sum((r.get("paths") or 0) for r in results.values())},
          "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": vio_out,
          "known_findings": [f["what"] for f, _ in known]}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d/%d obligations discharged %s, %d undecided harnesses, %d concrete runs, %d violations, %.1fs" %
          (prop, disch, total, by, len(undecided), runs, len(violations), wall), file=out)
    for x in undecided:
        print("  undecided: %s: %s %s" % (x["harness"], x["reason"], x["open"][:5]), file=out)
    if os.environ.get("VERIF_VERBOSE"):
        for x in undecided:
            print(x["tb"], file=out)
        for x in bounded:
            if x.get("error"):
                print("  concrete error", x["harness"], x["error"], x.get("tb"), file=out)
        for n in sorted(results):
            print("   ", n, "%.1fs" % (results[n].get("wall") or 0), len(results[n]["obligations"]), "paths", results[n].get("paths"), file=out)
    total_checked = total + sum((c.get("checked") or 0) for c in con.values())
    if total_checked == 0:
        print("no obligation generated for %s" % prop, file=out)
        return 2
    return code
