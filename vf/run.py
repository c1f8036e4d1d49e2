"""Decide one property:  python -m vf.run C01 [--tier thorough]   |   python -m vf.run --replay FILE"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/vf_numba_cache")
from vf import engine, loader  # noqa: E402

TRUSTED_ALWAYS = [
    "real arithmetic instead of IEEE-754 doubles (rounding is not modelled in the proofs; the concrete runs use the real doubles)",
    "matrix inverses, logarithms and square roots that the code takes exist on the input (M inv(M) = I is an axiom)",
    "vf engine: index-notation normal-form prover and the numpy/scipy.sparse look-alikes (cross-checked by running every contract on the real code under CPython)",
    "z3 4.x for branch feasibility and inequalities",
    "extraction drops only `if __name__ == '__main__'` blocks; everything else of /repo/spreg/*.py is executed as written",
]


def load_contracts(prop=None):
    for f in sorted(glob.glob(os.path.join(ROOT, "vf", "contracts", "*.py"))):
        b = os.path.basename(f)[:-3]
        if b.startswith("__"):
            continue
        importlib.import_module("vf.contracts." + b)
    return [c for c in engine.CONTRACTS if prop is None or c.prop == prop]


def job(a):
    kind, name, ci, kw = a
    con = BYNAME[name]
    try:
        if kind == "sym":
            return engine.run_sym(con, ci)
        return engine.run_num(con, ci, **kw)
    except BaseException as e:       # engine bug: never hidden
        import traceback
        msg = traceback.format_exc()[-1500:]
        if kind == "sym":
            return dict(kind="sym", contract=name, case=ci, paths=0, wall=0, z3=0, models=[], stubs=[],
                        obs=[dict(label="engine", status="unsupported", detail=msg, backend="engine", trivial=False, t=0, path=0)])
        return dict(kind="num", contract=name, case=ci, done=0, rejected=0, labels={}, wall=0, sample=None,
                    fail=dict(label="engine", detail=msg, seed=None, contract=name, prop=con.prop, case=ci))


BYNAME = {}


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status", "open") == "open"]


def match_known(ks, contract, label, case):
    for k in ks:
        if k["contract"] == contract and (k.get("label") is None or label == k["label"] or
                                          (k["label"].endswith("*") and label.startswith(k["label"][:-1]))):
            if k.get("case") is None or k["case"] == case:
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only contracts whose name contains this")
    ap.add_argument("--nosym", action="store_true")
    ap.add_argument("--nonum", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier
    t0 = time.time()
    cons = load_contracts(prop)
    if a.only:
        cons = [c for c in cons if a.only in c.name]
    for c in cons:
        if c.name in BYNAME:
            raise SystemExit("duplicate contract " + c.name)
        BYNAME[c.name] = c
    viol = []              # (replay dict, tail)
    boot_error = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            loader.boot()
            for m in sorted({k.split(":")[0] for c in cons for k in c.funcs}):
                engine.real(m)
    except BaseException as e:
        boot_error = "%s: %s" % (type(e).__name__, e)
    if boot_error:
        viol.append((dict(property=prop, contract="import", label="import", detail=boot_error), ""))
    # the functions under contract must exist
    missing = []
    thorough = tier == "thorough"
    mult = 24 if thorough else 5
    DEADLINE[0] = t0 + (3300 if thorough else 660)
    jobs = []
    for c in cons:
        if c.sym and not a.nosym:
            for ci in range(len(c.symcases or c.cases)):
                jobs.append(("sym", c.name, ci, {}))
        if c.num and not a.nonum:
            for ci in range(len(c.cases)):
                d = c.draws * mult
                step = max(1, d // 4) if d >= 16 else d
                for s in range(0, d, step):
                    jobs.append(("num", c.name, ci, dict(draws=min(step, d - s), start=s * 4)))
    # long symbolic jobs first
    jobs.sort(key=lambda j: 0 if j[0] == "sym" else 1)
    results = []
    if not boot_error:
        results = pool_run(jobs, a.j)
    ks = known(prop)
    kfound = {}
    symres = [r for r in results if r["kind"] == "sym"]
    numres = [r for r in results if r["kind"] == "num"]
    bad_num = [r for r in numres if r["fail"]]
    obs_all = [(r, o) for r in symres for o in r["obs"]]
    bad_sym = [(r, o) for r, o in obs_all if o["status"] != "proved"]
    for r in list(bad_num):
        k = match_known(ks, r["contract"], r["fail"]["label"], r["case"])
        if k:
            kfound[k["id"]] = k
            bad_num.remove(r)
    for r, o in list(bad_sym):
        k = match_known(ks, r["contract"], o["label"].split("[")[0], r["case"])
        if k:
            kfound[k["id"]] = k
            bad_sym.remove((r, o))
    for r in bad_num:
        viol.append((dict(r["fail"], property=prop, kind="concrete input"), ""))
    # proof failures: replay the verifier's counterexample / search for one on the real code
    searched = 0
    unresolved = {}
    for r, o in bad_sym:
        unresolved.setdefault((r["contract"], r["case"]), []).append((r, o))
    if unresolved and not viol:
        sj = []
        for (cn, ci), lst in list(unresolved.items())[:24]:
            con = BYNAME[cn]
            if not con.num:
                # a proof without an executable twin: the concrete contracts of the same functions (or modules) are searched
                sib = [x for x in cons if x.num and set(x.funcs) & set(con.funcs)] or \
                      [x for x in cons if x.num and {f.split(":")[0] for f in x.funcs} & {f.split(":")[0] for f in con.funcs}]
                for x in sib:
                    for q in range(len(x.cases)):
                        j = ("num", x.name, q, dict(draws=30, start=30000, budget=40))
                        if j not in sj:
                            sj.append(j)
                continue
            cis = [ci] if con.symcases is None else list(range(len(con.cases)))
            seen = set()
            for r, o in lst:
                for m in r["models"]:
                    ov = m.get("over")
                    if ov and repr(sorted(ov.items())) not in seen and all(abs(v) < 3000 for v in ov.values()):
                        seen.add(repr(sorted(ov.items())))
                        for q in cis[:4]:
                            sj.append(("num", cn, q, dict(draws=6, start=10000, over=ov, budget=60)))
            for q in cis[:6]:
                for st in (None, "scaled", "integer"):
                    sj.append(("num", cn, q, dict(draws=60, start=20000, budget=40, style=st)))
        each = max(3, min(40, 300 * a.j // max(1, len(sj))))        # the whole search stays within minutes
        for q in sj:
            q[3]["budget"] = min(q[3]["budget"], each)
        res2 = pool_run(sj, a.j)
        for r in res2:
            searched += r["done"]
            numres.append(r)
            if r["fail"] and not match_known(ks, r["contract"], r["fail"]["label"], r["case"]):
                viol.append((dict(r["fail"], property=prop, kind="concrete input found after a failed proof"), ""))
    # a loop contract or a decomposition that no longer names the variables of the code says nothing about the code: the case is undischarged
    for v in unresolved.values():
        if any("does not fit the code" in o["detail"] for _, o in v):
            for _, o in v:
                o["status"] = "unsupported"
            v.sort(key=lambda t: "does not fit the code" not in t[1]["detail"])
    nummods = {f.split(":")[0] for c in cons if c.num for f in c.funcs}
    soft = {k: v for k, v in unresolved.items()
            if all(o["status"] == "unsupported" for _, o in v) and (BYNAME[k[0]].num or all(f.split(":")[0] in nummods for f in BYNAME[k[0]].funcs))}
    for k, v in sorted(soft.items()):
        print("UNDISCHARGED (bounded stand-in used, %d concrete instances): %s case %s: %s"
              % (searched, k[0], k[1], v[0][1]["detail"][:160].replace("\n", " ")))
        unresolved.pop(k)
    if unresolved:
        (cn, ci), lst = sorted(unresolved.items(), key=lambda t: 0 if any(o["status"] == "failed" for _, o in t[1]) else 1)[0]
        rep = dict(property=prop, kind="failed obligation", contract=cn, case=ci,
                   functions=BYNAME[cn].funcs,
                   failed=[dict(contract=k[0], case=k[1], obligations=[o for _, o in v][:8], path_models=[m for r, _ in v[:1] for m in r["models"]][:3])
                           for k, v in list(unresolved.items())[:20]],
                   search="%d further concrete instances of the contract run on the real code, none failed" % searched)
        if not viol:
            viol.append((rep, " no-failing-input-found"))
    nob = len(obs_all)
    nums = sum(r["done"] for r in numres)
    if not boot_error and not a.only:
        empty = [c.name for c in cons if c.sym and not a.nosym and not any(r["contract"] == c.name and r["obs"] for r in symres)]
        emptyn = [c.name for c in cons if c.num and not a.nonum and
                  not any(r["contract"] == c.name and (r["done"] or r["fail"]) for r in numres)]
        gone = {r["contract"]: r["gone"] for r in numres if r.get("gone")}
        for n, why in sorted(gone.items()):
            print("UNDISCHARGED (concrete checks of %s not run): %s" % (n, why))
        emptyn = [n for n in emptyn if n not in gone]
        if time.time() > DEADLINE[0]:
            print("DEADLINE reached: not run: %s %s" % (empty, emptyn))
            empty = emptyn = []
        if not cons or empty or emptyn:
            viol.append((dict(property=prop, contract="vacuity", label="zero obligations", detail="%s %s" % (empty, emptyn)),
                         " no-failing-input-found"))
    # ---------------- evidence
    wall = time.time() - t0
    ev = evidence(prop, tier, cons, symres, numres, obs_all, bad_sym, kfound, len(viol), wall, searched)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in kfound.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    c = ev["coverage"]
    print("%s: %d obligations, %d discharged (%d contracts, %d functions under contract); %d concrete runs, %d checks; %.1fs"
          % (prop, c["obligations"], c["discharged"], len(cons), len(c["functions_under_contract"]), nums,
             c["concrete_checks"], wall))
    if a.v:
        for r, o in bad_sym:
            print("  UNPROVED", r["contract"], r["case"], "path", o["path"], o["label"], o["status"], o["detail"][:160])
        for r in bad_num:
            print("  NUM FAIL", r["contract"], r["case"], r["fail"]["label"], r["fail"]["detail"][:900])
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("  time", r["kind"], r["contract"], r["case"], round(r["wall"], 1))
        for r in numres:
            if r["rejected"] > 2 * max(r["done"], 1):
                print("  many rejections", r["contract"], r["case"], r["rejected"], r["done"])
    if not viol:
        return 0
    rep, tail = viol[0]
    path = write_replay(prop, rep)
    rep0 = viol[0][0]
    ob = (rep0.get("failed") or [{}])[0].get("obligations") or [{}]
    ob = next((o for o in ob if o.get("status") == "failed"), ob[0])
    print("  failed: %s / %s: %s" % (rep0.get("contract"), rep0.get("label") or ob.get("label", ""), str(rep0.get("detail") or ob.get("detail", ""))[:400]))
    print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    return 1


DEADLINE = [None]


def pool_run(jobs, j):
    """run the jobs on j processes. What has not answered at the deadline of the whole check is given up: a proof counts as undischarged,
    concrete draws as not run."""
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    if j == 1:
        return [job(x) for x in jobs]
    out = []
    # every proof case starts from a fresh process: declarations (symmetric, positive, ...) of one case never reach another
    for kind, per in (("sym", 1), ("num", 20)):
        some = [x for x in jobs if x[0] == kind]
        if some:
            got = set()
            p = ctx.Pool(min(j, len(some)), maxtasksperchild=per)
            it = p.imap_unordered(numbered, list(enumerate(some)), chunksize=1)
            try:
                for _ in some:
                    i, r = it.next(timeout=None if DEADLINE[0] is None else max(1, DEADLINE[0] - time.time()))
                    got.add(i)
                    out.append(r)
            except mp.TimeoutError:
                for i, (_, name, ci, kw) in enumerate(some):
                    if i not in got and kind == "sym":
                        out.append(dict(kind="sym", contract=name, case=ci, paths=0, wall=0, z3=0, models=[], stubs=[],
                                        obs=[dict(label="time", status="unsupported", detail="no answer before the deadline of the check",
                                                  backend="timeout", trivial=False, t=0, path=0)]))
                    elif i not in got:
                        out.append(dict(kind="num", contract=name, case=ci, done=0, rejected=0, labels={}, fail=None, wall=0, sample=None))
            p.terminate()
            p.join()
    return out


def numbered(a):
    return a[0], job(a[1])


def evidence(prop, tier, cons, symres, numres, obs_all, bad_sym, kfound, nviol, wall, searched):
    disch = [o for _, o in obs_all if o["status"] == "proved"]
    back = {}
    for o in disch:
        back[o["backend"]] = back.get(o["backend"], 0) + 1
    symnames = {r["contract"] for r in symres}
    under = sorted({f for c in cons if c.name in symnames for f in c.funcs})
    bounded = sorted({f for c in cons if c.name not in symnames or c.bounded for f in c.funcs} - set(under))
    stubs = sorted({s for r in symres for s in r["stubs"]})
    samples = [r["sample"] for r in numres if r["sample"]][:3]
    checks = sum(sum(r["labels"].values()) for r in numres)
    lab = {(r["contract"], r["case"], l) for r in numres for l in r["labels"]}
    cov = dict(
        obligations=len(obs_all), discharged=len(disch),
        trivial_obligations=sum(1 for o in disch if o["trivial"]),
        paths=sum(r["paths"] for r in symres),
        discharged_by_backend=back, solver_time_s=round(sum(o["t"] for _, o in obs_all), 2),
        z3_time_s=round(sum(r["z3"] for r in symres), 2),
        checker_cmd="cd /verif && ./check %s   (proof mode of vf.engine over the sources of /repo/spreg)" % prop,
        trusted_base=TRUSTED_ALWAYS + sorted({c.note for c in cons if c.note}),
        functions_under_contract=under,
        callee_contracts_used=stubs,
        bounded_only_functions=bounded,
        bounded_contracts=[dict(contract=c.name, bound=c.bounded or "concrete runs only: random instances", functions=c.funcs)
                           for c in cons if c.bounded or c.name not in symnames],
        contracts=[dict(name=c.name, functions=c.funcs, proof_cases=len(c.symcases or c.cases) if c.sym else 0,
                        obligations=sum(1 for r, o in obs_all if r["contract"] == c.name),
                        discharged=sum(1 for r, o in obs_all if r["contract"] == c.name and o["status"] == "proved"),
                        concrete_cases=len(c.cases) if c.num else 0,
                        concrete_runs=sum(r["done"] for r in numres if r["contract"] == c.name)) for c in cons],
        evaluations=sum(r["done"] for r in numres), concrete_checks=checks, distinct_nontrivial=len(lab),
        rule="each concrete run draws random arrays/weights/options for one contract case and runs the real code; "
             "distinct = contract x case x obligation label", samples=samples,
        search_after_failed_proof=searched,
        known_findings=[k["what"] for k in kfound.values()],
    )
    assumptions = sorted({c.note for c in cons if c.note}) + \
        ["callee contract used in place of the body of %s; proved separately where listed" % s for s in stubs]
    lvl = "proof" if symres else "exploration"
    return dict(property=prop, tier=tier, seed=engine.SEED, level=level_of(prop, lvl), coverage=cov, assumptions=assumptions,
                wall_s=round(wall, 2), violations=nviol)


def level_of(prop, default):
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return default


def write_replay(prop, rep):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rep, indent=1, default=str)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(s)
    return p


def replay(path):
    rep = json.load(open(path))
    cons = load_contracts(rep["property"])
    con = next((c for c in cons if c.name == rep.get("contract")), None)
    if con is None or rep.get("seed") is None:
        print(json.dumps(rep, indent=1)[:4000])
        return 1
    r = engine.run_num(con, rep["case"], 1, start=rep["draw"], over=rep.get("over"), style=rep.get("style"), seed=rep["seed"])
    print(json.dumps({k: v for k, v in (r["fail"] or {}).items() if k != "inputs"}, indent=1, default=str)
          if r["fail"] else "no failure on the current tree")
    return 1 if r["fail"] else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
