#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's working tree."""
import argparse
import ast
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
sys.dont_write_bytecode = True
from engine import core, prove, speclang, loader, solver, pool as tasks_pool  # noqa: E402

REAL_PY = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")
TIERS = {"quick": dict(deadline=240, samples=40, search=6000, seconds=45, hard=480, total=780),
         "thorough": dict(deadline=600, samples=800, search=30000, seconds=120, hard=6000, total=9000)}


def task(args):
    return task1(*args)


def task1(name, cfg, deadline):
    lem = core.LEMMAS[name]
    for k in solver.STATS:
        solver.STATS[k] = 0
    p = prove.Prover(deadline_s=deadline)
    r = p.run(lem, cfg)
    if (r["failures"] or r["undecided"]) and set(lem.opts.get("opaque") or {}) & core.INLINE:
        p = prove.Prover(deadline_s=deadline)
        r2 = p.run(lem, cfg, inline=True)
        r2["wall_s"] += r["wall_s"]
        if not r2["failures"] and not r2["undecided"]:
            r = r2
    r["solver"] = dict(solver.STATS)
    r["modules"] = dict(p.ld.sources)
    return r


def literals(paths):
    out = set()
    for p in paths:
        try:
            t = ast.parse(open(p, encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = float(n.value)
                if v == v and abs(v) < 1e7:
                    out.add(v)
                    if v < 0:
                        out.add(-v)
    return sorted(out)


def concrete(jobs, timeout):
    if not jobs:
        return []
    try:
        r = subprocess.run([REAL_PY, os.path.join(HERE, "engine", "concrete.py")], input=json.dumps(jobs),
                           capture_output=True, text=True, timeout=timeout, cwd="/tmp",
                           env=dict(os.environ, PYTHONHASHSEED="0"))
        return json.loads(r.stdout)
    except Exception as e:
        msg = "%s" % e
        try:
            msg += r.stderr[-1500:]
        except Exception:
            pass
        return [dict(found=False, error=msg, tried=0, met=0) for _ in jobs]


def job(r, T, seed):
    if r["failures"] or r["undecided"]:
        n, secs = T["search"], T["seconds"]
    else:
        n, secs = T["samples"], 10
    mods = r["modules"] or {}
    lits = literals([modpath(m) for m in mods]) if mods else []
    pts = [p for f in r["failures"] for p in f["points"]][:60]
    return dict(lemma=r["lemma"], cfg=r["cfg"], points=pts, n=n, seed=seed, literals=lits, seconds=secs)


def modpath(name):
    p = os.path.join(loader.find_root(), *name.split("."))
    return p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="load every contract and ask each back end one question")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--names", default=None, help="file with the names of the lemmas to run")
    ap.add_argument("-v", action="count", default=0)
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    T = TIERS.get(a.tier, TIERS["quick"])
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    speclang.load_specs(True)
    lems = [l for l in core.LEMMAS.values() if (a.prop in l.props or a.prop == "ALL") and
            (not a.only or a.only in l.name + " " + str(l.opts.get("target")))]
    if a.names:
        keep = set(open(a.names).read().split("\n"))
        lems = [l for l in lems if l.name in keep]
    tasks = [(l.name, c, T["deadline"]) for l in lems for c in l.configs]
    if not tasks:
        print("no lemma for %s" % a.prop)
        sys.exit(3)
    tasks.sort(key=lambda t: -core.LEMMAS[t[0]].opts.get("weight", 1))
    results = []
    hard = T["hard"]
    known = load_known(a.prop)
    stop = False
    pool = tasks_pool.Tasks(task, tasks, a.j, 1.3 * T["deadline"] + 40)
    ex1 = ThreadPoolExecutor(3)
    early = []
    pend = set(range(len(tasks)))

    def show(r):
        if not a.v:
            return
        st = "FAIL" if r["failures"] else ("UNDECIDED " + r["undecided"][:300] if r["undecided"] else "ok")
        if a.v < 2 and st == "ok" and r["wall_s"] < 10:
            return
        print("%-100s %3d paths %4d/%4d %6.1fs %s" % (r["lemma"] + (str(r["cfg"]) if r["cfg"] else ""), r["paths"],
              r["discharged"], r["obligations"], r["wall_s"], st), flush=True)
        for f in r["failures"][:1 if a.v < 2 else 3]:
            print("     ", f["label"], "|", f["why"][:250 if a.v < 2 else 900])
            for x in f["path"][:0 if a.v < 2 else 12]:
                print("          PC", x[:200])

    while pend:
        time.sleep(0.05)
        left = hard - (time.time() - t0)
        arrived = pool.poll()
        if pool.eof or left <= 0 or stop:
            got = {i for i, _ in arrived}
            why = "not run: violation already found" if stop else "time limit of the check" if left <= 0 else "the worker ended"
            arrived += [(i, ("error", why)) for i in sorted(pend) if i not in got]
        for i, r in arrived:
            t = tasks[i]
            pend.discard(i)
            if r is None or isinstance(r, tuple):
                r = dict(lemma=t[0], cfg=t[1], obligations=0, discharged=0, by={}, failures=[],
                         undecided="worker: %s" % (r[1] if r else "a back end did not return in time"), paths=0, infeasible=0, functions=[],
                         assumptions=[], vacuous=0, wall_s=0, solver={}, modules={}, skipped=stop)
            if not r["failures"] and not r["undecided"] and r["obligations"] - r["vacuous"] <= 0:
                r["undecided"] = "no obligation was generated"
            results.append(r)
            show(r)
            if r["failures"] and not a.all:
                early.append((r, ex1.submit(concrete, [job(r, T, seed)], 60 + T["seconds"])))
        for r, fu in early:
            if fu.done() and "concrete" not in r:
                r["concrete"] = c = fu.result()[0]
                if c.get("found") and not match_known(known, r, c):
                    stop = True
    pool.kill()
    for r, fu in early:
        if stop and not fu.done():
            fu.cancel()
    ex1.shutdown(wait=not stop, cancel_futures=True)
    for r, fu in early:
        if "concrete" not in r and fu.done() and not fu.cancelled():
            r["concrete"] = fu.result()[0]

    # ---- concrete runs: replay of failures, bounded stand-ins, cross-check of the engine
    jobs, owners = [], []
    for r in results:
        if "concrete" in r or stop:
            continue
        jobs.append(job(r, T, seed))
        owners.append(r)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["n"])
    nb = max(1, min(a.j, len(jobs)))
    buckets = [order[i::nb] for i in range(nb)]
    with ThreadPoolExecutor(nb) as ex:
        cap = max(60, T["total"] - (time.time() - t0))
        outs = list(ex.map(lambda b: concrete([jobs[i] for i in b], cap), buckets))
    for b, o in zip(buckets, outs):
        for i, c in zip(b, o):
            owners[i]["concrete"] = c

    # ---- verdicts
    viol = []
    bounded = []
    errors = []
    seen_known = []
    for r in results:
        c = r.get("concrete") or {}
        if c.get("error"):
            errors.append("%s: %s" % (r["lemma"], c["error"][-300:]))
        if c.get("found"):
            k = match_known(known, r, c)
            if k:
                if k not in seen_known:
                    seen_known.append(k)
                continue
            viol.append((r, c, True))
        elif r["failures"]:
            real = [f for f in r["failures"] if f["kind"] not in ("exec", "numeric")]
            if real:
                k = match_known(known, r, None)
                if k:
                    if k not in seen_known:
                        seen_known.append(k)
                    continue
                viol.append((r, c, False))
            else:
                # seen only by the engine and not reproduced, or not decided by any back end
                r["undecided"] = "not decided: " + r["failures"][0]["why"]
                bounded.append(r)
        elif r["undecided"] and not r.get("skipped"):
            bounded.append(r)
    write_evidence(a, T, seed, t0, results, viol, bounded, errors, seen_known)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    tot = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    print("%s: %d lemmas, %d paths, %d/%d obligations discharged, %d bounded stand-ins, %.1f s" % (
        a.prop, len(results), sum(r["paths"] for r in results), dis, tot, len(bounded), time.time() - t0))
    for b in bounded:
        print("  bounded: %s (%s; %s concrete points)" % (b["lemma"], (b["undecided"] or "")[:160].replace("\n", " "),
                                                          (b.get("concrete") or {}).get("met")))
    for e in errors[:5]:
        print("  note: concrete run: %s" % e)
    if viol:
        rp = write_replay(a.prop, viol)
        concrete_found = any(v[2] for v in viol)
        for r, c, f in viol[:5]:
            if f:
                print("  violated: %s at %s: %s" % (r["lemma"], json.dumps(c["env"]), c["fails"][0]))
            else:
                print("  not discharged: %s: %s: %s" % (r["lemma"], r["failures"][0]["label"], r["failures"][0]["why"][:250]))
        print("VIOLATION property=%s replay=%s%s" % (a.prop, rp, "" if concrete_found else " no-failing-input-found"))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(1 if viol else 0)


def selftest():
    import z3
    speclang.load_specs(True)
    x = z3.Real("x")
    z = z3.Solver()
    z.add(x * x < 0)
    ok = str(z.check()) == "unsat" and solver.cvc5_check("(declare-const x Real)(assert (< (* x x) 0.0))(check-sat)") == "unsat"
    ok = ok and subprocess.run([REAL_PY, "-c", "import deltares_coastal_structures_toolbox"], cwd="/tmp").returncode == 0
    print("%d lemmas, back ends %s" % (len(core.LEMMAS), "ok" if ok else "NOT OK"))
    sys.exit(0 if ok else 2)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def match_known(known, r, c):
    for k in known:
        if k["lemma"] == r["lemma"]:
            if c is None:
                return k if k.get("label") and all(k["label"] in f["label"] for f in r["failures"]) else None
            if all(k.get("label", "") in f[0] for f in c["fails"]) and k.get("message", "") in c["fails"][0][1]:
                return k
    return None


def write_replay(prop, viol):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    viol = sorted(viol, key=lambda v: not v[2])
    out = []
    for r, c, f in viol[:20]:
        o = dict(lemma=r["lemma"], cfg=r["cfg"], failed_obligations=[
            dict(label=x["label"], why=x["why"], path=x["path"]) for x in r["failures"][:5]])
        if f:
            o["input"] = c["env"]
            o["observed"] = c["fails"]
            o["trace"] = c["trace"]
            o["replay_cmd"] = "python3-vt /verif/replay.py %s" % p
        else:
            o["note"] = "no failing input found; %s concrete points tried" % c.get("tried")
        out.append(o)
    json.dump(dict(property=prop, violations=out), open(p, "w"), indent=1)
    return p


def write_evidence(a, T, seed, t0, results, viol, bounded, errors, known):
    by = {}
    for r in results:
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"]})
    bset = {b["lemma"] for b in bounded}
    proved = [r for r in results if not r["failures"] and not r["undecided"]]
    assumptions = [
        "arithmetic is exact real arithmetic: rounding, overflow and underflow of doubles are not modelled",
        "numeric literals denote the decimal number written in the source",
        "comparisons are made on defined (non-NaN, finite) values; inputs lie in the domain listed per lemma",
        "numpy functions behave as documented (shims in engine/shim.py)",
        "deltares_wave_toolbox disper returns one positive wave number determined by (w, h, g)",
    ]
    for r in results:
        assumptions += [x for x in r["assumptions"] if x not in assumptions]
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed,
        level="proof" if not bounded else "other",
        coverage=dict(
            obligations=sum(r["obligations"] for r in results),
            discharged=sum(r["discharged"] for r in results),
            checker_cmd="python3-vt /verif/check.py %s --tier %s" % (a.prop, a.tier),
            trusted_base=["engine/ (VC generator: literal-exact symbolic execution of the source in /repo)",
                          "normal-form rewriting (engine/nf.py)", "z3 %s" % _z3v(), "cvc5 1.1.2", "CPython 3.12"],
            explanation="deductive verification; %d of %d lemmas proved, the others (bounded_lemmas) replayed on concrete "
            "points of the real code only" % (len(proved), len(results)),
            lemmas=len(results), proved_lemmas=len(proved), bounded_lemmas=sorted(bset),
            functions_under_contract=funcs, paths=sum(r["paths"] for r in results),
            infeasible_paths=sum(r["infeasible"] for r in results),
            discharged_by=by,
            solver_time_s=round(sum(r["solver"].get("z3_time", 0) + r["solver"].get("cvc5_time", 0) for r in results), 2),
            z3_calls=sum(r["solver"].get("z3_calls", 0) for r in results),
            cvc5_calls=sum(r["solver"].get("cvc5_calls", 0) for r in results),
            concrete_points_on_real_code=sum((r.get("concrete") or {}).get("met", 0) or 0 for r in results),
            vacuous_obligations=sum(r["vacuous"] for r in results),
            source_sha256={k: v for r in results for k, v in r["modules"].items()},
            per_lemma=[dict(lemma=r["lemma"], cfg={k: str(v) for k, v in r["cfg"].items()}, paths=r["paths"], obligations=r["obligations"],
                            discharged=r["discharged"], wall_s=r["wall_s"], undecided=r["undecided"],
                            concrete=(r.get("concrete") or {}).get("met")) for r in results],
            known_findings=[k["what"] for k in known], notes=errors[:10],
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    os.makedirs(OUT, exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, a.prop + ".json"), "w"), indent=1, default=str)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
