"""python -m vt.check <property> [--tier quick|thorough]   decide one property
python -m vt.check --replay <file>                          re-run a recorded failure"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
if HERE not in sys.path:
    sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")

CONTRACT_MODULES = sorted(
    f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.endswith(".py") and not f.startswith("_")
)

TRUSTED = [
    "the contracts of the torch operations stated in vt/symtorch.py and vt/tensor.py (assumed contracts of the dependency)",
    "machine arithmetic treated as exact complex arithmetic; quotients compared where no denominator vanishes",
    "the term normaliser vt/poly.py and the path explorer vt/ctx.py",
    "z3 (integer conditions on sizes and indices)",
    "the CPython interpreter executing the source of /repo against the facade",
]


def load_contracts():
    from . import harness

    if not harness.REGISTRY:
        for m in CONTRACT_MODULES:
            importlib.import_module("contracts." + m)
    return harness.REGISTRY


# ---------------------------------------------------------------- worker processes
def _work(conn, fn, args):
    try:
        r = fn(*args)
        conn.send_bytes(pickle.dumps(("ok", r)))
    except BaseException as e:  # noqa
        try:
            conn.send_bytes(pickle.dumps(("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, jobs, hard, until=None):
    """tasks: list of (key, fn, args); returns {key: ('ok', result) | ('exc', msg) | ('timeout', None)}
    hard: wall seconds per task; until: wall clock at which whatever still runs is given up"""
    ctx = mp.get_context("fork")
    pending = list(tasks)
    live = {}
    out = {}
    while pending or live:
        while pending and len(live) < jobs:
            key, fn, args = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_work, args=(b, fn, args))
            p.start()
            b.close()
            live[key] = (p, a, time.time())
        for key in list(live):
            p, a, t0 = live[key]
            if a.poll(0.01):
                try:
                    out[key] = pickle.loads(a.recv_bytes())
                except EOFError:
                    out[key] = ("exc", "worker died")
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[key]
            elif not p.is_alive():
                out[key] = ("exc", "worker ended without a result")
                del live[key]
            elif time.time() - t0 > hard or (until and time.time() > until):
                p.kill()
                p.join()
                out[key] = ("timeout", None)
                del live[key]
    return out


class Ob:
    """picklable obligation"""

    def __init__(self, o):
        self.name, self.prop, self.ok, self.how = o.name, o.prop, o.ok, o.how
        self.detail, self.path, self.time = o.detail, o.path, o.time


def sym_task(i, prop, seconds):
    from . import harness

    sys.setrecursionlimit(20000)
    con = load_contracts()[i]
    r = harness.run_symbolic(con, prop, seconds)
    r.obligations = [Ob(o) for o in r.obligations]
    r.events = []
    r.hints = [h for h in r.hints[:4]]
    return r


def con_task(i, prop, seed, trials, seconds, hints, seeds=None):
    from . import harness

    con = load_contracts()[i]
    return harness.run_concrete(con, prop, seed, trials, seconds, hints, seeds)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    return decide(a.property, a.tier, a.only, a.v)


def replay(path):
    d = json.load(open(path))
    regs = load_contracts()
    print(json.dumps({k: v for k, v in d.items() if k != "verifier_output"}, indent=1))
    if d.get("seed") is None:
        print(d.get("verifier_output", ""))
        return 1
    for i, c in enumerate(regs):
        if c.name == d["contract"]:
            from . import harness

            r = harness.run_concrete(c, d["property"], 0, 1, 120, [d.get("hint") or {}], seeds=[d["seed"]])
            print("replay:", r.failure or r.error or "no failure")
            return 1 if r.failure else 0
    print("unknown contract")
    return 2


def decide(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    sym_s, con_s, trials = (420, 240, 1500) if thorough else (100, 25, 60)
    regs = load_contracts()
    idx = [i for i, c in enumerate(regs) if prop in c.props and (only is None or only in c.name)]
    if not idx:
        print("no contract for", prop)
        return 2
    jobs = int(os.environ.get("VT_JOBS", "8"))
    sym = {i: regs[i] for i in idx if regs[i].modes in ("both", "sym")}
    con = {i: regs[i] for i in idx if regs[i].modes in ("both", "con")}
    order = sorted(sym, key=lambda i: -regs[i].weight)
    sres = run_tasks([(i, sym_task, (i, prop, sym_s)) for i in order], jobs, 3 * sym_s, None if thorough else t0 + 450)
    hints = []
    for i, (st, r) in sres.items():
        if st == "ok":
            hints += r.hints
    hints = hints[:6]
    any_failed = any(st == "ok" and any(o.how == "refuted" for o in r.obligations if not o.ok) for st, r in sres.values())

    def lost(i):
        """the verifier did not decide this contract (completely): its bounded stand-in is what remains"""
        if i not in sres:  # only run concretely: stands in for the contracts of the same module
            return any(lost(j) for j in sres if regs[j].fn.__module__ == regs[i].fn.__module__)
        st, r = sres[i]
        return st != "ok" or bool(r.unsupported or r.error) or any(not o.ok for o in r.obligations)

    def mult(i):
        return 4 if (any_failed or lost(i)) and not thorough else 1

    def nt(i):
        return int((regs[i].trials or trials) * (trials / 60.0 if regs[i].trials else 1) * mult(i))

    corder = sorted(con, key=lambda i: -regs[i].weight * mult(i))
    cres = run_tasks([(i, con_task, (i, prop, seed, nt(i), con_s * mult(i), hints)) for i in corder], jobs,
                     con_s * (1 if thorough else 4) + 120)

    # ------------------------------------------------------------ verdict
    total, discharged = 0, 0
    failed, open_, bounded, errors = [], [], [], []
    z3q, z3t, solver_t, paths = 0, 0.0, 0.0, 0
    hashes = {}
    per = {}
    for i in sym:
        c = regs[i]
        st, r = sres[i]
        info = per.setdefault(c.name, {"functions": list(c.functions)})
        if st != "ok":
            bounded.append("%s: verifier %s (%s)" % (c.name, st, (r or "")[:300]))
            info["status"] = "not decided by the verifier"
            continue
        hashes.update(r.hashes)
        z3q += r.stats.get("z3_queries", 0)
        z3t += r.stats.get("z3_time", 0.0)
        paths += r.stats.get("paths", 0)
        solver_t += r.seconds
        obs = [o for o in r.obligations]
        n_ok = sum(o.ok for o in obs)
        total += len(obs)
        discharged += n_ok
        info.update(obligations=len(obs), discharged=n_ok, paths=r.stats.get("paths", 0), seconds=round(r.seconds, 2), scope=r.rank)
        for o in obs:
            if not o.ok:
                (failed if o.how == "refuted" else open_).append((c, o))
        if r.unsupported or r.error:
            bounded.append("%s: %s" % (c.name, r.unsupported or r.error))
            info["status"] = "bounded stand-in: %s" % (r.unsupported or r.error)
        elif not obs:
            errors.append("%s: no obligation generated" % c.name)
        else:
            info["status"] = "proved" if n_ok == len(obs) else "not discharged"
    checked = evals = 0
    confail = []
    for i in con:
        c = regs[i]
        st, r = cres[i]
        info = per.setdefault(c.name, {"functions": list(c.functions)})
        if st != "ok":
            errors.append("%s: concrete run %s %s" % (c.name, st, r or ""))
            continue
        evals += r.trials
        checked += r.checked
        info["concrete_runs"] = r.trials
        if r.failure:
            confail.append((c, r))
        if r.error:
            errors.append("%s: concrete run: %s" % (c.name, r.error))
        elif r.skipped:
            bounded.append("%s: %s" % (c.name, r.skipped))
        elif not r.failure and r.trials == 0:
            errors.append("%s: no concrete run completed" % c.name)
    known = known_findings(prop)
    violations = []
    printed = set()

    def is_known(name, text):
        for k in known:
            if k["contract"] == name and k["match"] in text:
                if k["id"] not in printed:
                    printed.add(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                return True
        return False

    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)

    def write_replay(k, d):
        p = os.path.join(HERE, "evidence", "replay", "%s_%d.json" % (prop, k))
        json.dump(d, open(p, "w"), indent=1, default=str)
        return p

    fo = ["%s [%s] %s" % (o.name, o.path, o.detail) for _, o in failed]
    for c, r in confail:
        if is_known(c.name, r.failure):
            continue
        p = write_replay(len(violations), {
            "property": prop, "contract": c.name, "seed": r.seed, "hint": getattr(r, "hint", {}), "failure": r.failure,
            "failed_obligations": fo[:20],
            "how_to_replay": "cd /verif && /opt/venv/bin/python -m vt.check --replay <this file>"})
        violations.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("failing input: %s" % r.failure)
    ref = [(c, o) for c, o in failed if not is_known(c.name, o.name + " " + o.detail)]
    for c, o in ref[:10]:
        print("failed obligation: %s [%s] %s" % (o.name, o.path, o.detail[:600]))
    if ref and not violations:
        p = write_replay(0, {
            "property": prop, "contract": ref[0][0].name, "seed": None, "failed_obligation": ref[0][1].name,
            "verifier_output": "\n".join(fo[:20])})
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    for c, o in open_[:10]:
        print("open (bounded stand-in only): %s [%s] %s" % (o.name, o.path, o.detail[:400]))
    for b in bounded:
        print("bounded: %s" % b)
    for e in errors:
        print("checker error: %s" % e)
    from . import harness

    assumptions = sorted({x for i in idx for x in regs[i].assumes})
    cov = {
        "obligations": total,
        "discharged": discharged,
        "checker_cmd": "/opt/venv/bin/python -m vt.check %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted({f for i in idx for f in regs[i].functions}),
        "contracts": per,
        "backend": {"term identity / rewriting": "vt/poly.py", "integer conditions": "z3", "z3_queries": z3q,
                    "z3_seconds": round(z3t, 3), "verifier_seconds": round(solver_t, 2), "paths": paths},
        "bounded_stand_ins": bounded + ["%s [%s]" % (o.name, o.path) for _, o in open_],
        "concrete_replay": {"evaluations": evals, "comparisons": checked, "label": "bounded, not counted as proved"},
        "source_hashes": hashes,
    }
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof", "coverage": cov,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d paths, %d z3 queries; %d concrete runs, %d comparisons; %.1f s" % (
        prop, total, discharged, paths, z3q, evals, checked, time.time() - t0))
    if verbose:
        for n, d in per.items():
            print("  ", n, {k: v for k, v in d.items() if k != "functions"})
    for v in violations:
        print(v)
    if violations:
        return 1
    if errors:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
