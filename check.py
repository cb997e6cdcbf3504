#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --setup                            build engine and all harnesses
   check.py --replay FILE                      re-run a recorded counterexample"""
import argparse, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, VERIF)
import build, driver, props

LIMITS = {
    "quick": dict(paths=60, time=60, run_timeout=60, nra=8, flip=2, maxbr=1500, maxhard=10),
    "thorough": dict(paths=600, time=900, run_timeout=300, nra=60, flip=10, maxbr=20000, maxhard=60),
}


def harness_exe(h, native=False):
    d = props.HARNESS[h]
    return build.build(h, d["src"], native=native, extra=d.get("extra", ()) if not native else d.get("extra_native", d.get("extra", ())), libs=d.get("libs", ()))


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def run_job(a):
    prop, idx, (h, conf, lim), tier, seed, exe, kn = a
    L = dict(LIMITS[tier]); L.update(lim)
    logs = []
    t = time.time()
    ks = [k for k in kn if k["harness"] == h and all(str(conf.get(c)) == str(v) for c, v in k.get("conf", {}).items())]
    try:
        j = driver.Job(exe, lambda: harness_exe(h, True), conf, L, seed, logs.append, "%s %s" % (h, conf))
        j.known = [re.compile(k["label"]) for k in ks]
        r = j.explore()
        r["st"] = (j.st.queries, j.st.time, j.st.unsat, j.st.sat, j.st.unknown)
        r["err"] = None
    except build.BuildError as e:
        r = dict(err="build: " + str(e))
    except Exception:
        r = dict(err=traceback.format_exc())
    r["wall"] = time.time() - t
    r["log"] = logs
    return idx, r


def functions_of(exe, sites):
    """demangled names of the helfem functions that handled symbolic data"""
    try:
        out = subprocess.run(["nm", "-n", exe], stdout=subprocess.PIPE).stdout.decode()
    except OSError:
        return []
    syms, base = [], 0
    for l in out.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "tTwWuVi":
            syms.append((int(p[0], 16), p[2]))
        if len(p) == 3 and p[2] == "__executable_start":
            base = int(p[0], 16)
    base = base or 0x400000
    import bisect
    addrs = [s[0] for s in syms]
    names = set()
    for s in sites:
        k = bisect.bisect_right(addrs, s + base - 1) - 1
        if k >= 0:
            names.add(syms[k][1])
    dem = subprocess.run(["c++filt"], input="\n".join(sorted(names)).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
    keep = sorted({re.sub(r"\(.*", "", d)[:160] for d in dem if "helfem" in d or not (d.startswith("Eigen") or d.startswith("void Eigen") or d.startswith("std::"))})
    return [k for k in keep if not k.startswith("void Eigen") and "Eigen::internal" not in k and not k.startswith("sym")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring filter on job configuration (debugging; no evidence)")
    ap.add_argument("-v", action="store_true")
    A = ap.parse_args()
    if A.setup:
        build.plugin(); build.rtobj(True); build.rtobj(False)
        for h in props.HARNESS:
            harness_exe(h)
            if A.v:
                print("built", h)
        return 0
    if A.replay:
        d = json.load(open(A.replay))
        rc, txt = driver.replay(harness_exe(d["harness"], True), d["conf"], d["inputs"])
        print(txt)
        return rc
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tier = A.tier if A.tier in LIMITS else "quick"
    jobs = props.PROPS[A.prop](tier)
    if A.only:
        jobs = [j for j in jobs if A.only in "%s %s" % (j[0], j[1])]
    exes = {h: harness_exe(h) for h in sorted({j[0] for j in jobs})}
    tb = time.time() - t0
    kn = known(A.prop)
    res = [None] * len(jobs)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(int(os.environ.get("SYM_JOBS", os.cpu_count() or 4)), max(1, len(jobs)))) as pool:
        for idx, r in pool.imap_unordered(run_job, [(A.prop, i, j, tier, seed, exes[j[0]], kn) for i, j in enumerate(jobs)], chunksize=1):
            res[idx] = r
            if A.v:
                print("  [%6.1fs] %s %s: %s" % (r["wall"], jobs[idx][0], jobs[idx][1], r["err"] or {k: r[k] for k in ("paths", "obligations", "discharged", "symbolic", "concrete", "inconclusive", "infeasible", "branches_negated", "undecided_branches", "nonrepro", "cut", "lost", "nodes", "incon_labels", "selfcheck_bad") if r.get(k)}))
                for l in r["log"]:
                    print("     ", l)
    errs = [(j, r["err"]) for j, r in zip(jobs, res) if r["err"]]
    ok = [(j, r) for j, r in zip(jobs, res) if not r["err"]]
    tot = lambda k: sum(r[k] for _, r in ok)
    viol = []
    seen_known = {}
    for j, r in ok:
        for inp, label, txt in r["violations"]:
            viol.append((j, inp, label, txt))
        for k in r.get("known_hits", ()):
            seen_known.setdefault(k, j)
    for k in kn:
        if any(k["label"] == h for h in seen_known):
            print("KNOWN-FINDING: property=%s %s" % (A.prop, k["what"]))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    vpaths = []
    for n, (j, inp, label, txt) in enumerate(viol[:5]):
        p = os.path.join(VERIF, "replays", "%s-%d.json" % (A.prop, n))
        json.dump(dict(property=A.prop, harness=j[0], conf=j[1], inputs=inp, label=label, text=txt), open(p, "w"), indent=1)
        vpaths.append(p)
    fns = set()
    for h in exes:
        s = set()
        for j, r in ok:
            if j[0] == h:
                s |= set(r["sites"])
        fns |= set(functions_of(exes[h], s))
    wall = time.time() - t0
    if not A.only:
        lost = {}
        for _, r in ok:
            for k, v in r["lost"].items():
                lost[k] = lost.get(k, 0) + v
        ev = dict(property=A.prop, tier=tier, seed=seed, level="other", wall_s=round(wall, 2), violations=len(viol),
                  coverage=dict(
                      explanation="Bounded symbolic execution of the compiled LLVM IR of /repo's current sources; every obligation is decided by z3 for all values of the symbolic inputs on each explored path.",
                      functions_encoded=sorted(fns), n_functions=len(fns),
                      configurations=[dict(harness=j[0], conf=j[1], symbolic_inputs=r["vars"], paths=r["paths"], obligations=r["obligations"], discharged=r["discharged"], cut=r["cut"]) for j, r in ok],
                      paths=tot("paths"), obligations=tot("obligations"), obligations_symbolic=tot("symbolic"), obligations_concrete_on_path=tot("concrete"), discharged=tot("discharged"),
                      inconclusive=tot("inconclusive"), inconclusive_labels=sorted(set().union(*[r["incon_labels"] for _, r in ok]) if ok else [])[:50],
                      branch_flips_feasible=tot("branches_negated"), branch_flips_infeasible=tot("infeasible"), branch_flips_undecided=tot("undecided_branches"),
                      queries=sum(r["st"][0] for _, r in ok), solver_time_s=round(sum(r["st"][1] for _, r in ok), 2), queries_unsat=sum(r["st"][2] for _, r in ok), queries_sat=sum(r["st"][3] for _, r in ok), queries_unknown=sum(r["st"][4] for _, r in ok),
                      candidates_replayed=tot("candidates"), candidates_not_reproduced=tot("nonrepro"), values_escaping_encoding=lost,
                      encoding_points_validated=sum(r.get("selfcheck", 0) for _, r in ok), encoding_points_mismatched=sum(r.get("selfcheck_bad", 0) for _, r in ok),
                      largest_expression_graph=max([r["nodes"] for _, r in ok] or [0]), build_s=round(tb, 2), errors=[str(e)[-500:] for e in errs],
                      samples=[dict(harness=j[0], conf=j[1], obligations=sorted(r["labels"])[:6]) for j, r in ok[:3]]),
                  assumptions=["real-number semantics of the double-precision code (rounding is outside the claim; tolerances are stated in the harness)",
                               "code compiled by clang -O1 without BLAS, OpenMP or SIMD",
                               "values stay finite; configurations, input ranges and path limits as listed under configurations"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", A.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=list)
    print("%s %s: %d configurations, %d paths, %d obligations (%d symbolic), %d discharged, %d inconclusive, %d queries, %.1f s (build %.1f s)" % (A.prop, tier, len(ok), tot("paths"), tot("obligations"), tot("symbolic"), tot("discharged"), tot("inconclusive"), sum(r["st"][0] for _, r in ok), wall, tb))
    build.prune()
    if viol:
        for (j, inp, label, txt), p in zip(viol[:5], vpaths):
            print("  %s %s: %s\n    inputs %s\n    %s" % (j[0], j[1], label, inp, txt.replace("\n", "\n    ")[:1200]))
            print("VIOLATION property=%s replay=%s" % (A.prop, p))
        return 1
    if errs:
        for j, e in errs[:3]:
            print("ERROR %s: %s" % (j, e), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
