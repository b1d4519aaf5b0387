#!/usr/bin/env python3
"""Solver-based check of one property against /repo's current source.

    python3-vt check.py C02 [--tier quick|thorough] [--only NAME] [--jobs N] [-v]
    python3-vt check.py --replay FILE

Every harness instance of the property is explored symbolically (see DESIGN.md):
the package's source is executed on symbolic inputs, path by path; the solver
discharges each obligation or yields values that are replayed on the real package.
Exit 0: nothing violated.  Exit 1: VIOLATION line(s).  Exit 2: nothing could be
decided (error of the check).
"""
import argparse
import glob
import importlib
import json
import os
import signal
import sys
import time

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
QUICK_BUDGET = 480.0
THOROUGH_BUDGET = 6000.0


def load_props(prop=None):
    from symff import registry
    for f in sorted(glob.glob(os.path.join(HERE, "symff", "props", "*.py"))):
        importlib.import_module("symff.props." + os.path.basename(f)[:-3])
    return registry.HARNESSES


def work(h, params, tier, seed, conn):
    import faulthandler
    faulthandler.enable()
    from symff import engine as E
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    paths, t, q_ms, ob_ms = h.limits(params, tier)
    E.BOX = h.box
    run = E.Run(h.fn, params, seed=seed, max_paths=paths, time_limit=t, q_ms=q_ms, ob_ms=ob_ms,
                cross=0 if tier == "quick" else 12, witness_limit=24 if tier == "quick" else 80)
    t0 = time.time()
    err = None
    try:
        run.go()
    except MemoryError:
        err = "memory limit"
    except BaseException as e:      # reported as inconclusive
        import traceback
        err = "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:])
    s = run.stats
    d = dict(harness=h.name, params=params, wall=round(time.time() - t0, 2), err=err,
             paths=run.paths, infeasible=run.infeasible, decisions=run.decisions, decided_paths=run.decided_paths,
             obligations=run.obligations, discharged=run.discharged, by_form=run.by_form, by_solver=run.by_solver,
             unknown=run.unknown_ob, violations=run.violations, unreproduced=run.unreproduced,
             inconclusive=run.inconclusive[:40], mismatch=run.mismatch[:10], truncated=run.truncated,
             unwitnessed=run.unwitnessed, witness_runs=run.witness_runs, witness_checks=run.witness_checks,
             executed=run.executed, samples=run.samples, fallback_runs=run.fallback_runs, ghosts=sorted(map(str, run.ghosts)),
             stats=dict(queries=s.queries, sat=s.sat, unsat=s.unsat, unknown=s.unknown, solver_s=s.solver_s,
                        cross=s.cross, cross_agree=s.cross_agree, cross_disagree=s.cross_disagree))
    with os.fdopen(conn, "w") as f:
        json.dump(d, f, default=str)


def run_all(jobs, tier, seed, njobs, budget, verbose):
    """fork one process per instance, at most njobs at a time"""
    t_start = time.time()
    pending = list(jobs)
    live = {}
    out = []
    tmp = []
    while pending or live:
        while pending and len(live) < njobs:
            h, params = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    if not verbose:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                    work(h, params, tier, seed, w)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            lim = h.limits(params, tier)[1] * 1.5 + 40
            live[pid] = [h, params, r, b"", time.time() + lim]
        progressed = False
        for pid in list(live):
            e = live[pid]
            eof = False
            try:
                while True:
                    b = os.read(e[2], 1 << 16)
                    if not b:
                        eof = True
                        break
                    e[3] += b
                    progressed = True
            except BlockingIOError:
                pass
            over = time.time() > e[4] or time.time() - t_start > budget
            if over and not eof:
                os.kill(pid, signal.SIGKILL)
                eof = True
            if eof:
                os.waitpid(pid, 0)
                os.close(e[2])
                del live[pid]
                progressed = True
                try:
                    d = json.loads(e[3])
                except ValueError:
                    d = dict(harness=e[0].name, params=e[1], err="killed (time or memory)" if over else "worker died")
                out.append(d)
                if verbose:
                    brief(d)
        if time.time() - t_start > budget:
            for h, params in pending:
                out.append(dict(harness=h.name, params=params, err="not started: budget used up"))
            pending = []
        if not progressed:
            time.sleep(0.01)
    return out


def brief(d):
    print("  %-34s %-30s %s" % (d["harness"], json.dumps(d["params"])[:30],
          ("ERR " + d["err"]) if d.get("err") else
          "%.1fs paths=%d/%d obl=%d/%d form=%d smt=%d unk=%d wit=%d/%d viol=%d inc=%d mism=%d q=%d st=%.1fs%s%s" % (
              d["wall"], d["decided_paths"], d["paths"], d["discharged"], d["obligations"], d["by_form"], d["by_solver"],
              d["unknown"], d["witness_runs"], d["witness_checks"], len(d["violations"]), len(d["inconclusive"]), len(d["mismatch"]),
              d["stats"]["queries"], d["stats"]["solver_s"], " TRUNC:" + d["truncated"] if d["truncated"] else "",
              " unwit=%d" % d["unwitnessed"] if d["unwitnessed"] else "")), flush=True)
    if not d.get("err"):
        for v in d["violations"][:2]:
            print("      VIOL", v["check"], v["how"], v["fails"][:2], {k: v["env"][k] for k in list(v["env"])[:8]}, flush=True)
        for v in d["inconclusive"][:3]:
            print("      INC", v[:300])
        for v in d["mismatch"][:3]:
            print("      MISMATCH", v[:300])


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                f = dict(x.split("=", 1) for x in l.split(" ", 4)[1:4])
                f["text"] = l.split(" ", 4)[4]
                out.append(f)
    return out


def matches(f, d, v):
    return f["harness"] == d["harness"] and f["check"] == v["check"].replace(" ", "_")


def replay(path):
    from symff import engine as E
    d = json.load(open(path))
    hs = load_props()
    h = [x for x in hs[d["property"]] if x.name == d["harness"]][0]
    E.reset_all()
    r = E.run_concrete(h.fn, d["params"], E.Env(d["seed"], d["env"]))
    print("property", d["property"], "harness", h.name, "params", d["params"])
    print("inputs (atom values):", json.dumps(d["env"]))
    if r is None:
        print("the input no longer satisfies the harness's assumptions")
        return 0
    for n, t in r[0]:
        print("FAILS", n, ":", t)
    if not r[0]:
        print("all assertions hold")
    return 1 if r[0] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    prop = a.prop
    from symff import shims, engine as E
    hs = load_props().get(prop)
    if not hs:
        print("no harness for", prop)
        return 2
    try:
        shims.import_real()
    except Exception as e:
        print("ERROR: the package does not import: %r" % (e,))
        return 2
    jobs = []
    for h in hs:
        if a.only and a.only not in h.name:
            continue
        for p in h.quick + (h.thorough if tier == "thorough" else []):
            jobs.append((h, p))
    res = run_all(jobs, tier, seed, a.jobs, QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET, a.v)
    ok = [d for d in res if not d.get("err")]
    bad = [d for d in res if d.get("err")]
    lines = []
    kf = known(prop)
    kfseen = set()
    nviol = 0
    rdir = os.path.join(HERE, "replays")
    vio = []
    for d in ok:
        for v in d["violations"]:
            hit = [f for f in kf if matches(f, d, v)]
            if hit:
                kfseen.add(hit[0]["text"])
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, d["harness"], nviol))
            with open(path, "w") as f:
                json.dump(dict(property=prop, harness=d["harness"], params=d["params"], seed=v["seed"], env=v["env"],
                               check=v["check"], how=v["how"], fails=v["fails"], path=v["path"],
                               rerun="python3-vt %s --replay %s" % (os.path.abspath(__file__), path)), f, indent=1, default=str)
            nviol += 1
            vio.append((d["harness"], v["check"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s %s: %s (%s) %s" % (d["harness"], json.dumps(d["params"]), v["check"], v["how"], v["fails"][:2]))
    for t in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, t["text"]))
    inc = []
    for d in bad:
        inc.append("%s %s: %s" % (d["harness"], json.dumps(d["params"]), d["err"]))
    for d in ok:
        for x in d["inconclusive"][:4] + (["truncated: " + d["truncated"]] if d["truncated"] else []) + \
                ["encoding differs from real run: " + m for m in d["mismatch"][:3]]:
            inc.append("%s %s: %s" % (d["harness"], json.dumps(d["params"]), x))
    for x in inc[:40]:
        print("INCONCLUSIVE property=%s %s" % (prop, x[:300]))

    def tot(k):
        return sum(d[k] for d in ok)

    fn = {}
    for d in ok:
        for k, n in d["executed"].items():
            fn[k] = fn.get(k, 0) + n
    st = {k: sum(d["stats"][k] for d in ok) for k in ("queries", "sat", "unsat", "unknown", "solver_s", "cross", "cross_agree", "cross_disagree")}
    wall = time.time() - t0
    clean = [d for d in ok if not d["inconclusive"] and not d["truncated"] and not d["mismatch"]]
    decided = tot("discharged") + nviol + len(kfseen)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=nviol,
        assumptions=sorted({h.assumes for h in hs if h.assumes}) + [
            "floating-point arithmetic is modelled as exact real arithmetic; rounding is outside the claim",
            "solver-facing real inputs range over [-100,100] (C12, C25: [-10,10], C14: [-40,40]) unless the bound says otherwise",
            "numpy, scipy, networkx and random primitives are modelled by their documented contracts (DESIGN.md)"],
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=tot("witness_runs"),
            samples=[dict(harness=d["harness"], params=d["params"], **s) for d in ok for s in d["samples"][:1]][:12] or
                    [dict(harness=d["harness"], params=d["params"]) for d in res[:3]],
            meaning="states = feasible symbolic paths explored to the end; transitions = branch decisions on symbolic values; "
                    "traces = path witnesses run on the real package and compared with the encoding",
            functions_encoded={k: fn[k] for k in sorted(fn)},
            bounds=[dict(harness=h.name, bound=h.bound, assumes=h.assumes,
                         instances=h.quick + (h.thorough if tier == "thorough" else [])) for h in hs],
            obligations=tot("obligations"), discharged=tot("discharged"),
            discharged_by_normal_form=tot("by_form"), discharged_by_solver_search=tot("by_solver"), unknown=tot("unknown"),
            infeasible_prefixes=tot("infeasible"), compared_results=tot("witness_checks"),
            encoding_mismatches=sum(len(d["mismatch"]) for d in ok),
            queries=st["queries"], solver_sat=st["sat"], solver_unsat=st["unsat"], solver_unknown=st["unknown"],
            solver_seconds=round(st["solver_s"], 2),
            cross_checked_with_cvc5=st["cross"], cross_agree=st["cross_agree"], cross_disagree=st["cross_disagree"],
            instances=len(res), instances_fully_decided=len(clean),
            instances_inconclusive=[dict(harness=d["harness"], params=d["params"], why=(d.get("err") or d["truncated"] or
                                    (d["inconclusive"] + d["mismatch"])[:1])) for d in res if d not in clean],
            fallback_concrete_runs=tot("fallback_runs"), inconclusive=inc[:40]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d instances (%d fully decided), %d paths, %d/%d obligations discharged, %d queries (%.1f s solver), "
          "%d witnesses on the real package, %.1f s" % (prop, tier, len(res), len(clean), tot("paths"), tot("discharged"),
                                                       tot("obligations"), st["queries"], st["solver_s"], tot("witness_runs"), wall))
    if nviol:
        return 1
    if not decided:
        print("ERROR: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    c = main()
    sys.stdout.flush()
    os._exit(c)
