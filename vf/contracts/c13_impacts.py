"""C13: spatial multipliers and impacts."""
import itertools

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo


class _R:
    pass


def lattice(c, name):
    """a regular lattice (bipartite: every odd power of W has a zero trace) or a directed ring among other graphs."""
    import libpysal
    m = c.rng.randint(3, 7)
    kind = zoo.pick(c, "lattice", "ring", "row", "sim")
    if kind == "lattice":
        w = libpysal.weights.lat2W(m, m + 1)
    elif kind == "ring":
        w = libpysal.weights.W({i: [(i + 1) % (m + 4)] for i in range(m + 4)})
    else:
        return c.weights(name, m * m, kind)
    w.transform = "r"
    c.inputs[name] = w
    c.copies[name] = w.sparse.toarray().copy()
    return w


@contract("C13", ["sputils:spmultiplier"], cases=[dict(method=m) for m in ("simple", "full", "power")], draws=12,
          note="every W with a zero trace and every rho != 1; the power loop by its invariant: adi is the truncated series, "
               "its distance to the exact value is the remainder at the stop")
def multiplier(c, method):
    n = c.dim("n", 9, 30)
    w = c.weights("W", n, "row") if c.symbolic else lattice(c, "W")
    n = n if c.symbolic else w.n
    W = c.wd(w)
    rho = c.scalar("rho", -0.95, 0.95) if c.symbolic else np.array(c.rng.uniform(-0.95, 0.95))
    A = c.eye(n) - rho * W
    M = c.inv(A)
    end = {}
    if c.symbolic and method == "power":
        def enter(L):
            c.eq("entry: ww = W", c.dense(L["ww"]), W)
            c.eq("entry: rhop = rho", L["rhop"], rho)
            c.eq("entry: adi = tr(I + rho W)/n", L["adi"], (n + rho * c.tr(W)) / n)
            c.same("entry: powers", L["pow"], 1)
            R, P, p = c.scalar("R"), c.array("P", n, n), c.scalar("p")
            # ghost: R = rho^p, P = W^p, adi = tr(sum_{j<=p} rho^j W^j)/n = tr((I - rho R P W)(I - rho W)^-1)/n
            end.update(R=R, P=P, p=p)
            new = dict(L)
            new.update(ww=c.sparse(P), rhop=R, pow=p, adi=c.tr((c.eye(n) - rho * R * (P @ W)) @ M) / n,
                       adidiff=c.scalar("d_old"), adimax=c.scalar("m_old"), trw=c.scalar("t_old"))
            return new

        def back(L, s):
            c.eq("step: ww = W^(p+1)", c.dense(L["ww"]), end["P"] @ W)
            c.eq("step: rhop = rho^(p+1)", L["rhop"], end["R"] * rho)
            c.eq("step: pow", L["pow"], end["p"] + 1)
            c.eq("step: adi gains tr(rho^(p+1) W^(p+1))/n", L["adi"] - s["adi"], end["R"] * rho * c.tr(end["P"] @ W) / n)
            # the closed form is preserved: (I - rho R P W) M + rho R P W = (I - rho^2 R P W W) M
            lhs = (c.eye(n) - rho * end["R"] * (end["P"] @ W)) @ M + rho * end["R"] * (end["P"] @ W)
            rhs = (c.eye(n) - rho * rho * end["R"] * (end["P"] @ W @ W)) @ M
            c.eq("step: closed form", lhs @ A, rhs @ A)
        c.loop("sputils:spmultiplier", enter, back)
    z = c.func("sputils:spmultiplier")(w, rho, method=method)
    ati = 1 / (1 - rho)
    c.eq("average total", z["ati"], ati)
    c.same("method", z["method"], method)
    c.same("no warning", z["warn"], "")
    if method == "simple":
        c.eq("direct", z["adi"], 1.0)
    elif method == "full" or not c.symbolic:
        c.eq("average direct = mean diagonal of the inverse", z["adi"], c.tr(M) / n, tol=1e-6)
    else:
        c.eq("direct = truncated series", z["adi"], c.tr((c.eye(n) - rho * end["R"] * (end["P"] @ W)) @ M) / n)
    c.eq("indirect = total - direct", z["aii"], z["ati"] - z["adi"])
    c.frame_all("inputs unchanged")


@contract("C13", ["sputils:spmultiplier"], sym=False, draws=2)
def multiplier_unsupported(c):
    w = c.weights("W", 12, "row")
    z = c.func("sputils:spmultiplier")(w, np.array(0.4), method="nonsense")
    c.true("reported", "not supported" in z["warn"])
    c.same("falls back to", z["method"], "simple")
    c.eq("average total", z["ati"], 1 / (1 - 0.4))


# ------------------------------------------------------------------ effects
def table(types, regimes=None):
    import pandas as pd
    o = pd.DataFrame({"var_names": ["v%d" % i for i in range(len(types))], "var_type": types})
    o["regime"] = regimes if regimes is not None else 0
    o["equation"] = 0
    return o


EFF = [dict(kx=kx, slx=s, sv=sv, const=co) for kx in (1, 2, 3) for s in (0, 1, 2) for sv in (None, "some") for co in (True, False)
       if not (sv and (s == 0 or kx == 1))]


@contract("C13", ["sputils:_sp_effects"], cases=EFF, draws=2, note="all coefficients and multipliers, for every enumerated layout of the coefficient table")
def effects(c, kx, slx, sv, const):
    svl = "All" if sv is None else [j % 2 == 0 for j in range(kx)]
    sel = list(range(kx)) if sv is None else [j for j in range(kx) if svl[j]]
    types = (["o"] if const else []) + ["x"] * kx + ["wx"] * (len(sel) * slx) + ["rho"]
    r = _R()
    r.output = table(types)
    r.slx_vars = svl
    r.betas = c.array("b", len(types), 1, style="plain")
    adi, ati = c.scalar("adi", 1.0, 3.0), c.scalar("ati", 1.0, 9.0)
    z = dict(adi=adi, ati=ati, aii=ati - adi)
    btot, bdir, bind = c.func("sputils:_sp_effects")(r, r.output[r.output["var_type"] == "x"], z, slx, svl)
    o = 1 if const else 0
    for j in range(kx):
        b = r.betas[o + j, 0]
        g = b
        for l in range(slx):
            if j in sel:
                g = g + r.betas[o + kx + l * len(sel) + sel.index(j), 0]
        c.eq("direct of x%d" % j, bdir[j, 0], adi * b)
        c.eq("total of x%d" % j, btot[j, 0], ati * g)
        c.eq("indirect of x%d" % j, bind[j, 0], ati * g - adi * b)
    c.frame("coefficients unchanged", r.betas)


@contract("C13", ["sputils:_sp_effects"], cases=[dict(nr=nr, kx=kx, slx=s) for nr in (2, 3) for kx in (1, 2) for s in (0, 1, 2)], sym=False, draws=2,
          bounded="coefficients by regime in the enumerated layouts")
def effects_regimes(c, nr, kx, slx):
    """by regime: constant, x, lags of x; then one common rho."""
    types, reg = [], []
    for r_ in range(nr):
        types += ["o"] + ["x"] * kx + ["wx"] * (kx * slx)
        reg += ["r%d" % r_] * (1 + kx + kx * slx)
    types.append("rho")
    reg.append("_Global")
    r = _R()
    r.output = table(types, reg)
    r.betas = c.array("b", len(types), 1, style="plain")
    adi, ati = c.scalar("adi", 1.0, 3.0), c.scalar("ati", 1.0, 9.0)
    z = dict(adi=adi, ati=ati, aii=ati - adi)
    btot, bdir, bind = c.func("sputils:_sp_effects")(r, r.output[r.output["var_type"] == "x"], z, slx)
    B, i = 1 + kx + kx * slx, 0
    for r_ in range(nr):
        for j in range(kx):
            b = r.betas[r_ * B + 1 + j, 0]
            g = b + sum(r.betas[r_ * B + 1 + kx + l * kx + j, 0] for l in range(slx))
            c.eq("direct", bdir[i, 0], adi * b)
            c.eq("total", btot[i, 0], ati * g)
            c.eq("indirect", bind[i, 0], ati * g - adi * b)
            i += 1


# ------------------------------------------------------------------ individual multipliers
@contract("C13", ["sputils:i_multipliers"], cases=[dict(model=m, form=f) for m in ("lag", "slx", "kernel") for f in ("array", "W")], draws=3)
def individual(c, model, form):
    n = c.dim("n", 9, 25)
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    coef = c.scalar("rho", -0.9, 0.9)
    if model == "kernel":
        W = W + c.eye(n) * 0.7
        if form == "W":
            form = "array"
    if not c.symbolic and model == "lag":
        W = W / np.abs(np.linalg.eigvals(W)).max()
        form = "array"
    if c.symbolic:
        c.stub_pandas("sputils")
    t = c.func("sputils:i_multipliers")(W if form == "array" else w, coef, model=model, id=c.array("ids", n, 1))
    M = c.inv(c.eye(n) - coef * W) if model == "lag" else W
    d = c.np.diag(M).reshape(-1, 1)
    col = (lambda k: t[k]) if c.symbolic else (lambda k: t[k].to_numpy().reshape(-1, 1))
    direct = d if model != "slx" else c.np.zeros((n, 1))
    c.eq("direct", col("Direct"), direct)
    c.eq("effect of neighbours = row sum off the diagonal", col("EofNbrs"), M @ c.ones(n, 1) - d)
    c.eq("effect on neighbours = column sum off the diagonal", col("EonNbrs"), M.T @ c.ones(n, 1) - d)
    c.frame_all("inputs unchanged")


@contract("C13", ["sputils:i_multipliers"], cases=[dict(model=m) for m in ("power", "exponential")], sym=False, draws=3,
          bounded="random sparse decay weights; every id form")
def individual_nslx(c, model):
    import pandas as pd
    import scipy.sparse as SP
    n = c.dim("n", 9, 20)
    W = c.rng.uniform(0.2, 2, (n, n)) * (c.rng.rand(n, n) < 0.3)
    np.fill_diagonal(W, 0)
    ws = SP.csr_matrix(W)
    a = c.rng.uniform(0.5, 2)
    T = np.where(W > 0, W, 1) ** a if model == "power" else np.exp(-a * W)
    T = np.where(W > 0, T, 0)
    ids = [("none", None), ("array", np.arange(n)[:, None] + 100), ("frame", pd.DataFrame({"fips": np.arange(n) + 50})),
           ("filtered frame", pd.DataFrame({"fips": np.arange(n) + 50}, index=np.arange(n)[::-1] * 2)),
           ("series", pd.Series(np.arange(n) + 7, name="geo"))]
    for nm, i in ids:
        t = c.func("sputils:i_multipliers")(ws, a, model=model, id=i)
        c.same(nm + ": one row per observation", len(t), n)
        c.eq(nm + ": ids", t.iloc[:, 0].to_numpy().astype(float), np.arange(n) if i is None else np.asarray(i).reshape(-1).astype(float))
        c.eq(nm + ": direct", t["Direct"].to_numpy(), np.zeros(n))
        c.eq(nm + ": effect of neighbours", t["EofNbrs"].to_numpy(), T.sum(1))
        c.eq(nm + ": effect on neighbours", t["EonNbrs"].to_numpy(), T.sum(0))
    c.eq("weights unchanged", ws.toarray(), W)
    c.raises("unknown model", lambda: c.func("sputils:i_multipliers")(ws, a, model="lag"))


# ------------------------------------------------------------------ public classes
def parse(s):
    """{method: {variable: (direct, indirect, total)}} from the printed impact tables."""
    out, cur = {}, None
    for ln in s.splitlines():
        if ln.startswith("Impacts computed using the '"):
            cur = out.setdefault(ln.split("'")[1], [])
        elif cur is not None:
            p = ln.split()
            if len(p) == 4 and p[0] == "Variable":
                continue
            if len(p) == 4:
                try:
                    cur.append((p[0],) + tuple(float(v) for v in p[1:]))
                    continue
                except ValueError:
                    pass
            cur = None
    return out


def exact_multipliers(W, rho):
    n = W.shape[0]
    return np.trace(np.linalg.inv(np.eye(n) - rho * W)) / n, 1 / (1 - rho)


def impacts_check(c, o, W, coefs, tag=""):
    """coefs: [(name, beta, [lag coefficients])]"""
    rho = float(np.asarray(o.rho).ravel()[0])
    if abs(rho) >= 1:
        c.true(tag + "no impacts outside (-1, 1)", o.sp_multipliers is None)
        return
    c.assume(abs(rho) < 0.98)
    ad, at = exact_multipliers(W, rho)
    t = parse(o.summary)
    c.same(tag + "tables for the reported methods", set(t), set(o.sp_multipliers))
    for m, (a, i, tt) in o.sp_multipliers.items():
        e = 1.0 if m == "simple" else ad
        c.eq(tag + m + " multipliers", [a, i, tt], [e, at - e, at], tol=1e-6, scale=1)
        c.same(tag + m + ": variables", [r[0] for r in t[m]], [v[0] for v in coefs])
        for r, (nm, b, g) in zip(t[m], coefs):
            want = [e * b, at * (b + sum(g)) - e * b, at * (b + sum(g))]
            c.eq(tag + m + ": direct, indirect, total of " + nm, list(r[1:]), want, tol=6e-5, scale=1 + 1e-3 * max(map(abs, want)))


@contract("C13", ["output:_summary_impacts", "sputils:_sp_effects", "sputils:spmultiplier"],
          cases=[dict(kind=k, slx=s) for k in ("GM_Lag", "ML_Lag", "ML_LagFE", "ML_LagRE") for s in (0, 1, 2)] +
                [dict(kind=k, slx="some") for k in ("GM_Lag", "ML_Lag")],
          sym=False, draws=3, timeout=120, bounded="random data, n<=60; printed values to four decimals")
def public(c, kind, slx):
    if kind.startswith("ML_Lag") and kind != "ML_Lag":
        kind, d, kw = zoo.panel_args(c, kind, k=2)
        kx = 2
    else:
        d = K.spdata(c, k=3 if slx == "some" else zoo.pick(c, 1, 2), endog=zoo.pick(c, 0, 1) if kind == "GM_Lag" else 0, wkind="row", rho=c.rng.uniform(-0.6, 0.6))
        kw = K.call_args(c, d)
        kw["w"] = d.w
        kx = d.k
        kw["spat_diag"] = zoo.flip(c)
    sel = list(range(kx))
    s = slx
    if slx == "some":
        sv = [True, False, True] if zoo.flip(c) else [False, True, False]
        sel = [j for j in range(kx) if sv[j]]
        s = zoo.pick(c, 1, 2)
        kw["slx_vars"] = sv
    kw["slx_lags"] = s
    kw["spat_impacts"] = zoo.pick(c, "simple", "full", "power", "all", ["simple", "full"], "FULL")
    o = zoo.build(c, kind, kw)
    b = np.asarray(o.betas).ravel()
    o0 = 0 if kind == "ML_LagFE" else 1
    nm = [str(v) for v in o.output["var_names"]]
    coefs = [(nm[o0 + j], b[o0 + j], [b[o0 + kx + l * len(sel) + sel.index(j)] for l in range(s)] if j in sel else []) for j in range(kx)]
    impacts_check(c, o, d.W, coefs)
    c.frame_all("inputs unchanged")


@contract("C13", ["output:_summary_impacts", "sputils:_sp_effects"], cases=[dict(kind=k, slx=s, mixed=m) for k in ("GM_Lag_Regimes", "ML_Lag_Regimes")
          for s in (0, 1) for m in (False, True)], sym=False, draws=3, timeout=120, bounded="random data, n<=80; printed values to four decimals")
def public_regimes(c, kind, slx, mixed):
    kind, d, kw = zoo.cross_args(c, kind)
    kw.update(slx_lags=slx, spat_impacts=zoo.pick(c, "simple", "full", "all"), regime_lag_sep=False, constant_regi="many", cols2regi="all", spat_diag=False)
    if "regime_err_sep" in kw:
        kw["regime_err_sep"] = False
    if kw.get("robust") == "hac":
        kw["robust"] = None
        kw.pop("gwk", None)
    if mixed:
        kw["constant_regi"] = zoo.pick(c, "many", "one")
    o = zoo.build(c, kind, kw)
    t = o.output.sort_index()
    nm = [str(v) for v in t["var_names"]]
    b = np.asarray(o.betas).ravel()
    xn = kw["name_x"] if isinstance(kw["name_x"], list) else [kw["name_x"]]
    coefs = []
    for r in sorted(set(kw["regimes"])):
        for x in xn:
            j = nm.index("%s_%s" % (r, x))
            coefs.append((nm[j], b[j], [b[nm.index("%s_W_%s" % (r, x))]] if slx else []))
    impacts_check(c, o, d.W, coefs)
