"""C12: regimes: block design equals separate estimation; Chow tests are Wald tests of equality across regimes."""
import itertools

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo
from .c01_ols import ols_post


class _R:
    pass


# ------------------------------------------------------------------ Wald and Chow
@contract("C12", ["regimes:wald_test", "regimes:Wald.__init__"], draws=8)
def wald(c):
    k, r = c.dim("k", 3, 6), c.dim("r", 1, 3)
    b, R, q = c.array("b", k, 1), c.array("R", r, k), c.array("q", r, 1)
    V = c.array("V", k, k, symmetric=True)
    if not c.symbolic:
        V = V @ V.T + np.eye(k)
    w, p = c.func("regimes:wald_test")(b, R, q, V)
    d = R @ b - q
    c.eq("Wald", w, (d.T @ c.inv(R @ V @ R.T) @ d)[0, 0])
    c.eq("p", p, c.chi2sf(w, r))
    o = _R()
    o.betas, o.vm = b, V
    z = c.func("regimes:Wald")(o, R)
    d0 = R @ b
    c.eq("Wald class, q = 0", z.w, (d0.T @ c.inv(R @ V @ R.T) @ d0)[0, 0])
    c.eq("Wald class p", z.pvalue, c.chi2sf(z.w, r))
    c.frame("inputs unchanged", b, R, q, V)


def positions(vari, kr, kryd, nr):
    """the rows of the coefficient vector holding regime-varying coefficient `vari` of every regime:
    all exogenous blocks regime by regime, then all endogenous blocks regime by regime."""
    kx = kr - kryd
    if vari < kx:
        return [r * kx + vari for r in range(nr)]
    return [nr * kx + r * kryd + (vari - kx) for r in range(nr)]


def restriction(vari, kr, kf, kryd, nr):
    P = positions(vari, kr, kryd, nr)
    R = np.zeros((nr - 1, kr * nr + kf))
    for j in range(1, nr):
        R[j - 1, P[0]], R[j - 1, P[j]] = 1, -1
    return R


CHOW = [dict(nr=nr, kr=kr, kf=kf, kryd=ky) for nr in (2, 3) for kr in (1, 2, 3) for kf in (0, 1, 2) for ky in (0, 1) if ky < kr and nr * kr + kf < 9]


@contract("C12", ["regimes:buildR1var", "regimes:buildR"], sym=False, draws=1, cases=[dict()], bounded="every kr<=5, kf<=3, kryd<=kr, nr<=5")
def restriction_matrices(c):
    """buildR1var: one row per other regime, +1 on the first regime's coefficient and -1 on that regime's; buildR stacks them."""
    b1, bR = c.func("regimes:buildR1var"), c.func("regimes:buildR")
    for kr, kf, nr in itertools.product(range(1, 6), range(4), range(2, 6)):
        for ky in range(kr + 1):
            for v in range(kr):
                c.eq("row %d of kr=%d kf=%d kryd=%d nr=%d" % (v, kr, kf, ky, nr), b1(v, kr, kf, ky, nr), restriction(v, kr, kf, ky, nr))
        c.eq("buildR kr=%d kf=%d nr=%d" % (kr, kf, nr), bR(kr, kf, nr), np.vstack([restriction(v, kr, kf, 0, nr) for v in range(kr)]))


@contract("C12", ["regimes:_chow_run", "regimes:Chow.__init__", "regimes:buildR1var", "regimes:wald_test"], cases=CHOW, draws=2,
          note="all coefficient vectors and covariances, for every enumerated (number of regimes, varying, fixed, endogenous)")
def chow(c, nr, kr, kf, kryd):
    m = nr * kr + kf
    b = c.array("b", m, 1, style="plain")
    V = c.array("V", m, m, symmetric=True, style="plain")
    if not c.symbolic:
        V = V @ V.T + 0.1 * np.eye(m)
    o = _R()
    o.kr, o.kf, o.kryd, o.nr, o.betas, o.vm = kr, kf, kryd, nr, b, V
    z = c.func("regimes:Chow")(o)
    def stat(R):
        d = c.np.array(R) @ b
        return (d.T @ c.inv(c.np.array(R) @ V @ c.np.array(R).T) @ d)[0, 0]
    for v in range(kr):
        R = restriction(v, kr, kf, kryd, nr)
        c.eq("statistic of variable %d" % v, z.regi[v, 0], stat(R))
        c.eq("p of variable %d" % v, z.regi[v, 1], c.chi2sf(z.regi[v, 0], nr - 1))
    R = np.vstack([restriction(v, kr, kf, kryd, nr) for v in range(kr)])
    c.eq("joint", z.joint[0], stat(R))
    c.eq("joint p", z.joint[1], c.chi2sf(z.joint[0], kr * (nr - 1)))
    c.frame("inputs unchanged", b, V)


@contract("C12", ["regimes:_chow_run"], cases=[dict(fixed=f, nr=nr) for f in (True, False) for nr in (2, 3)], draws=4)
def chow_without_lambda(c, fixed, nr):
    """coefficients without a covariance (lambda): dropped from the end (one common lambda) or from every regime's block."""
    kr, kf = 2, (1 if fixed else 0)
    m = nr * kr
    b = c.array("b", m + (1 if fixed else nr), 1, style="plain")
    V = c.array("V", m, m, symmetric=True, style="plain")
    if not c.symbolic:
        V = V @ V.T + 0.1 * np.eye(m)
    joint, regi = c.func("regimes:_chow_run")(kr, kf, 0, nr, b, V)
    ix = list(range(m)) if fixed else [r * (kr + 1) + j for r in range(nr) for j in range(kr)]
    bb = c.np.vstack([b[i:i + 1, :] for i in ix])
    for v in range(kr):
        R = c.np.array(restriction(v, kr, 0, 0, nr))
        d = R @ bb
        c.eq("statistic of variable %d" % v, regi[v, 0], (d.T @ c.inv(R @ V @ R.T) @ d)[0, 0])
    R = c.np.array(np.vstack([restriction(v, kr, 0, 0, nr) for v in range(kr)]))
    d = R @ bb
    c.eq("joint", joint[0], (d.T @ c.inv(R @ V @ R.T) @ d)[0, 0])


# ------------------------------------------------------------------ block algebra
@contract("C12", ["ols:BaseOLS.__init__"], cases=[dict(nr=2), dict(nr=3)], draws=4,
          note="lemma: least squares on a block-diagonal design is least squares on every block")
def ols_blocks(c, nr):
    k = c.dim("k", 1, 3)
    ns = [c.dim("n%d" % r, 8, 20) for r in range(nr)]
    y = [c.array("y%d" % r, ns[r], 1) for r in range(nr)]
    x = [c.array("x%d" % r, ns[r], k) for r in range(nr)]
    np_ = c.np
    X = np_.vstack([np_.hstack([x[r] if s == r else np_.zeros((ns[r], k)) for s in range(nr)]) for r in range(nr)])
    o = c.func("ols:BaseOLS")(np_.vstack(y), X)
    bs = [c.inv(x[r].T @ x[r]) @ (x[r].T @ y[r]) for r in range(nr)]
    c.eq("coefficients", o.betas, np_.vstack(bs))
    c.eq("residuals", o.u, np_.vstack([y[r] - x[r] @ bs[r] for r in range(nr)]))
    us = [y[r] - x[r] @ bs[r] for r in range(nr)]
    s2 = sum((u.T @ u)[0, 0] for u in us) / (sum(ns) - nr * k)
    c.eq("covariance", o.vm, np_.vstack([np_.hstack([c.inv(x[r].T @ x[r]) * s2 if s == r else np_.zeros((k, k)) for s in range(nr)]) for r in range(nr)]))


@contract("C12", ["twosls:BaseTSLS.__init__"], cases=[dict(nr=2)], draws=4,
          note="lemma: two stage least squares on block-diagonal designs and instruments is two stage least squares on every block")
def tsls_blocks(c, nr):
    k, p, q = c.dim("k", 1, 2), c.dim("p", 1, 1), c.dim("lq", 2, 3)
    ns = [c.dim("n%d" % r, 12, 24) for r in range(nr)]
    A = lambda nm, m: [c.array("%s%d" % (nm, r), ns[r], m) for r in range(nr)]
    y, x, ye, qq = A("y", 1), A("x", k), A("ye", p), A("q", q)
    np_ = c.np
    B = lambda a, m: np_.vstack([np_.hstack([a[r] if s == r else np_.zeros((ns[r], m)) for s in range(nr)]) for r in range(nr)])
    o = c.func("twosls:BaseTSLS")(np_.vstack(y), B(x, k), B(ye, p), B(qq, q))
    h = [np_.hstack((x[r], qq[r])) for r in range(nr)]
    z = [np_.hstack((x[r], ye[r])) for r in range(nr)]
    bs = []
    for r in range(nr):
        zh = z[r].T @ h[r] @ c.inv(h[r].T @ h[r])
        bs.append(c.inv(zh @ (h[r].T @ z[r])) @ (zh @ (h[r].T @ y[r])))
    c.eq("coefficients, regime by regime within exogenous and endogenous", o.betas, np_.vstack([b[0:k, :] for b in bs] + [b[k:k + p, :] for b in bs]))


# ------------------------------------------------------------------ one regime's sample
class _Pick:
    """an n-row array indexed by one regime's row numbers."""

    def __init__(self, sub):
        self.sub = sub

    def __getitem__(self, ids):
        assert ids == ["rows of r"], ids
        return self.sub


def _work_args(fn, **over):
    """the positional arguments of a per-regime worker, filled in by parameter name."""
    import inspect
    ps = list(inspect.signature(fn).parameters)
    d = dict(w=None, regi_ids={"r": ["rows of r"]}, r="r", robust=None, sig2n_k=True, name_ds="ds", name_y="dep", name_x=["CONSTANT", "a"],
             name_w=None, name_regimes="reg", slx_lags=0, name_yend=["e"], name_q=["q"], gwk=None)
    d.update(over)
    return [d[p] for p in ps]


@contract("C12", ["ols_regimes:_work"], cases=[dict(robust=r, sig2n_k=s) for r in (None, "white", "hac") for s in (True, False)], num=False)
def ols_work(c, robust, sig2n_k):
    """the model of one regime is least squares on that regime's rows (hac is applied afterwards on the stacked fit)."""
    n, k = c.dim("n", 10, 30), c.dim("k", 1, 3)
    y, x = c.array("y", n, 1), c.array("x", n, k)
    f = c.func("ols_regimes:_work")
    o = f(*_work_args(f, y=_Pick(y), x=_Pick(x), robust=robust, sig2n_k=sig2n_k))
    ols_post(c, o, y, x, n, k, sig2n_k)
    ref = c.func("ols:BaseOLS")(y, x, robust=None if robust == "hac" else robust, sig2n_k=sig2n_k)
    c.eq("covariance", o.vm, ref.vm)


@contract("C12", ["twosls_regimes:_work", "twosls_regimes:_optimal_weight", "utils:RegressionProps_basic"],
          cases=[dict(robust=r, sig2n_k=s) for r in (None, "white", "hac", "ogmm") for s in (True, False)], num=False)
def tsls_work(c, robust, sig2n_k):
    n, k, p, q = c.dim("n", 10, 30), c.dim("k", 1, 3), c.dim("p", 1, 2), c.dim("lq", 2, 3)
    y, x, ye, qq = c.array("y", n, 1), c.array("x", n, k), c.array("ye", n, p), c.array("q", n, q)
    f = c.func("twosls_regimes:_work")
    o = f(*_work_args(f, y=_Pick(y), x=_Pick(x), yend=_Pick(ye), q=_Pick(qq), robust=robust, sig2n_k=sig2n_k))
    ref = c.func("twosls:BaseTSLS")(y, x, ye, qq, robust=robust if robust == "white" else None, sig2n_k=sig2n_k)
    if robust != "ogmm":
        c.eq("coefficients", o.betas, ref.betas)
        c.eq("covariance", o.vm, ref.vm)
        c.eq("residuals", o.u, ref.u)
    else:
        # two-step optimal GMM: weight (H' diag(u^2) H / m)^-1 with the 2SLS residuals
        m = (n - o.k) if sig2n_k else n
        hu = ref.h * (ref.u * ref.u)
        S = c.inv(ref.h.T @ hu / m)
        zh = ref.z.T @ ref.h
        V = c.inv(zh @ S @ zh.T)
        b = V @ (zh @ S @ (ref.h.T @ y))
        c.eq("optimal GMM coefficients", o.betas, b)
        c.eq("optimal GMM covariance", o.vm, V * m)
        c.eq("residuals", o.u, y - ref.z @ b)


# ------------------------------------------------------------------ public classes (concrete)
SEP = zoo.REGIMES
BASE_DROP = ("regimes", "constant_regi", "cols2regi", "regime_err_sep", "regime_lag_sep", "name_regimes", "name_gwk", "gwk", "vm", "name_ds", "spat_impacts",
             "spat_diag", "nonspat_diag", "name_w")


def separate_args(c, kind):
    """options of a fully separate regimes model."""
    for _ in range(60):
        kind, d, kw = zoo.cross_args(c, kind)
        break
    kw.update(constant_regi="many", cols2regi="all", slx_lags=0 if "Lag" in kind or "Combo" in kind else zoo.pick(c, 0, 0, 1, 2))
    for a in ("regime_err_sep", "regime_lag_sep"):
        if a in kw:
            kw[a] = True
    if kw.get("robust") == "hac":
        kw["robust"] = "white"
        kw.pop("gwk", None)
    kw.pop("spat_impacts", None)
    if "spat_diag" in kw:
        kw["spat_diag"] = False
    return d, kw


def subsample(kind, d, kw, ix, w):
    """the arguments of the plain model on one regime's rows."""
    import libpysal
    k2 = {k: v for k, v in kw.items() if k not in BASE_DROP}
    sl = k2.get("slx_lags")
    if sl:               # lags use the complete W
        k2["slx_lags"] = 0
        k2["x"] = np.hstack([d.x] + lag_powers(d.W, d.x, sl))
        k2.pop("name_x", None)
    for a in ("y", "x", "yend", "q"):
        if k2.get(a) is not None:
            k2[a] = np.asarray(k2[a])[ix]
    for a in ("name_y", "name_x", "name_yend", "name_q"):
        if k2.get(a) is not None and not isinstance(k2[a], str):
            k2[a] = list(k2[a])
    ws = libpysal.weights.w_subset(w, [w.id_order[i] for i in ix], silence_warnings=True)
    ws.transform = "r"
    if "w" in k2:
        k2["w"] = ws
    return k2


def fit(kind, kw):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    return zoo.build(None, kind, kw)


@contract("C12", ["%s:%s.__init__" % (m, k) for m, k in (
    ("ols_regimes", "OLS_Regimes"), ("twosls_regimes", "TSLS_Regimes"), ("twosls_sp_regimes", "GM_Lag_Regimes"),
    ("error_sp_regimes", "GM_Error_Regimes"), ("error_sp_regimes", "GM_Endog_Error_Regimes"), ("error_sp_regimes", "GM_Combo_Regimes"),
    ("error_sp_het_regimes", "GM_Error_Het_Regimes"), ("error_sp_het_regimes", "GM_Endog_Error_Het_Regimes"),
    ("error_sp_het_regimes", "GM_Combo_Het_Regimes"), ("error_sp_hom_regimes", "GM_Error_Hom_Regimes"),
    ("error_sp_hom_regimes", "GM_Endog_Error_Hom_Regimes"), ("error_sp_hom_regimes", "GM_Combo_Hom_Regimes"),
    ("ml_lag_regimes", "ML_Lag_Regimes"), ("ml_error_regimes", "ML_Error_Regimes"))],
    cases=[dict(kind=k) for k in SEP], sym=False, draws=3, timeout=120, bounded="random data n<=80, 2-3 regimes, random labels and row orders")
def separate(c, kind):
    """fully separate regimes: every regime equals the plain model on its own rows; results do not depend on row order."""
    d, kw = separate_args(c, kind)
    R = kw["regimes"]
    try:
        o = fit(kind, kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    n = d.n
    labels = sorted(set(R))
    c.true("one model per regime", hasattr(o, "multi") and len(o.multi) == len(labels))
    base = kind.replace("_Regimes", "")
    pos, tol = 0, 5e-5 if kind.startswith("ML") else 2e-6
    u, pr = np.asarray(o.u), np.asarray(o.predy)
    for r in labels:
        ix = [i for i in range(n) if R[i] == r]
        try:
            s = fit(base, subsample(kind, d, kw, ix, d.w))
        except Exception as e:
            c.assume("will not converge" not in str(e))
            raise
        m = s.betas.shape[0]
        t = "regime %d: " % labels.index(r)
        mm = o.multi[r]
        c.eq(t + "coefficients", mm.betas, s.betas, tol=tol, scale=float(np.abs(s.betas).max()))
        c.eq(t + "covariance", mm.vm, s.vm, tol=5e-5, scale=float(np.abs(s.vm).max()))
        c.eq(t + "stacked coefficients", o.betas[pos:pos + m], s.betas, tol=tol, scale=float(np.abs(s.betas).max()))
        c.eq(t + "residuals in place", u[ix], s.u, tol=tol, scale=float(np.abs(s.u).max()))
        c.eq(t + "predicted values in place", pr[ix], s.predy, tol=tol, scale=float(np.abs(s.predy).max()))
        pos += m
    c.eq("number of stacked coefficients", len(o.betas), pos)
    chow_check(c, o, R)
    # the order of the observations does not matter
    p = c.rng.permutation(n)
    kw2 = dict(kw)
    import libpysal
    kw2["w"] = libpysal.weights.W({i: d.w.neighbors[i] for i in d.w.id_order}, {i: d.w.weights[i] for i in d.w.id_order},
                                  id_order=[d.w.id_order[i] for i in p], silence_warnings=True)
    kw2["w"].transform = "r"
    kw2["regimes"] = [R[i] for i in p]
    for a in ("y", "x", "yend", "q"):
        if kw2.get(a) is not None:
            kw2[a] = np.asarray(kw2[a])[p]
    try:
        o2 = fit(kind, kw2)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    c.eq("coefficients after reordering the observations", o2.betas, o.betas, tol=2e-5, scale=float(np.abs(o.betas).max()))
    c.eq("residuals after reordering the observations", np.asarray(o2.u), u[p], tol=2e-5, scale=float(np.abs(u).max()))
    c.frame_all("inputs unchanged")


def names_of(o):
    return [str(v) for v in o.output.sort_index()["var_names"]]


def chow_check(c, o, R, tag="", finding=None):
    """joint and per-variable Chow statistics from the reported coefficients, covariance and names.
    finding: None = accept the recorded finding F10 (only where it applies), True = check nothing but that case."""
    labels = [str(r) for r in sorted(set(R))]
    nm = names_of(o)
    b, V = np.asarray(o.betas), np.asarray(o.vm)
    c.same(tag + "one name per coefficient", len(nm), len(b))
    if len(b) != len(V):
        keep = [i for i, v in enumerate(nm) if not v.endswith("lambda")]
        nm, b = [nm[i] for i in keep], b[keep]
        c.same(tag + "covariance without lambda", len(nm), len(V))
    groups = {}
    for i, v in enumerate(nm):
        if v.startswith("_Global_") or v in ("lambda", "rho"):
            continue
        if v.endswith("lambda"):
            r, nme = v[:-len("lambda")].rstrip("_"), "lambda"
        else:
            r, nme = v.split("_", 1)
        groups.setdefault(nme, {})[r] = i
    rows, per = [], []
    for nme, g in groups.items():
        c.same(tag + "%s has a coefficient in every regime" % nme, set(g), set(labels))
        Rm = np.zeros((len(labels) - 1, len(b)))
        for j, r in enumerate(labels[1:]):
            Rm[j, g[labels[0]]], Rm[j, g[r]] = 1, -1
        rows.append(Rm)
        per.append(nme)
    def stat(Rm):
        d = Rm @ b
        return float((d.T @ np.linalg.solve(Rm @ V @ Rm.T, d)).item())
    c.same(tag + "one Chow statistic per varying coefficient", o.chow.regi.shape[0], len(rows))
    c.assume(np.linalg.cond(V) < 1e12)
    # F10: where fixed exogenous coefficients stand before regime-varying endogenous ones
    kxr = o.kr - o.kryd
    f10 = o.kryd > 0 and len([v for v in nm[:min(g[labels[0]] for m_, g in list(groups.items())[kxr:])] if v.startswith("_Global_")]) > 0
    coded = [restriction(v, o.kr, len(b) - o.kr * len(labels), o.kryd, len(labels)) for v in range(len(rows))]
    if finding and not f10:
        return False
    for j, Rm in enumerate(rows):
        s = stat(Rm)
        bad = f10 and j >= kxr
        if bad and not finding:
            s = stat(coded[j])
        if finding and not bad:
            continue
        t = "endogenous variable with fixed exogenous coefficients: " if finding else tag
        c.eq(t + "Chow statistic" + ("" if finding else " of %s" % per[j]), o.chow.regi[j, 0], s, tol=1e-5, scale=1 + abs(s))
        c.eq(t + "Chow p of %s" % per[j], o.chow.regi[j, 1], c.stats.chi2.sf(s, len(labels) - 1), tol=1e-5, scale=1)
    s = stat(np.vstack(coded if f10 and not finding else rows))
    c.eq(tag + "joint Chow", o.chow.joint[0], s, tol=1e-5, scale=1 + abs(s))
    c.eq(tag + "joint Chow p", o.chow.joint[1], c.stats.chi2.sf(s, len(rows) * (len(labels) - 1)), tol=1e-5, scale=1)
    return True


@contract("C12", ["regimes:Chow.__init__", "regimes:buildR1var"], cases=[dict(kind=k) for k in ("TSLS_Regimes", "GM_Lag_Regimes", "GM_Endog_Error_Regimes", "GM_Combo_Regimes")],
          sym=False, draws=3, timeout=120, bounded="random data n<=80, 2-3 regimes (recorded finding F10)")
def chow_endogenous(c, kind):
    for _ in range(12):
        try:
            o, info = zoo.make_cross(c, kind)
        except Exception as e:
            c.assume("will not converge" not in str(e))
            raise
        if chow_check(c, o, info.kw["regimes"], finding=True):
            break


def expand(A, R, flags, labels):
    cols = []
    for r in labels:
        f = np.array([v == r for v in R], float)[:, None]
        cols += [A[:, [j]] * f for j in range(A.shape[1]) if flags[j]]
    cols += [A[:, [j]] for j in range(A.shape[1]) if not flags[j]]
    return np.hstack(cols)


@contract("C12", ["regimes:Regimes_Frame.__init__", "regimes:x2xsp", "regimes:regimeX_setup", "regimes:Chow.__init__"],
          cases=[dict(kind=k) for k in SEP], sym=False, draws=5, timeout=120, bounded="random data n<=80, 2-3 regimes, random varying/fixed choices")
def expanded(c, kind):
    """any choice of varying and fixed coefficients: estimation on the expanded design; Chow tests are Wald tests."""
    try:
        o, info = zoo.make_cross(c, kind)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    kw, d = info.kw, info.d
    R = kw["regimes"]
    labels = sorted(set(R))
    chow_check(c, o, R)
    if not hasattr(o, "multi"):
        x = d.x
        if kw.get("slx_lags"):
            x = np.hstack([x, d.W @ x])
        flags = [True] * x.shape[1] if isinstance(kw["cols2regi"], str) else list(kw["cols2regi"])[:x.shape[1]]
        X = expand(np.hstack([np.ones((d.n, 1)), x]), R, [kw["constant_regi"] == "many"] + flags, labels)
        ox = o.x.toarray() if hasattr(o.x, "toarray") else np.asarray(o.x)
        c.eq("expanded design", ox, X)
        if d.yend is not None:
            fl = [True] * d.yend.shape[1] if isinstance(kw["cols2regi"], str) else list(kw["cols2regi"])[d.k:]
            ye = expand(d.yend, R, fl, labels)
            if kind == "GM_Lag_Regimes" and kw.get("regime_lag_sep"):       # the lag of y within each regime is expanded with them
                same = np.array([[a == b for b in R] for a in R], float) * d.W
                wy = d.W @ d.y if kw.get("slx_lags") else same / same.sum(1, keepdims=True) @ d.y       # with SLX terms: the complete W
                ye = expand(np.hstack([d.yend, wy]), R, fl + [True], labels)
            oe = o.yend.toarray() if hasattr(o.yend, "toarray") else np.asarray(o.yend)
            c.eq("expanded endogenous variables", oe[:, :ye.shape[1]], ye)
        base = kind.replace("_Regimes", "")
        f = None
        if base == "OLS" and not o.regime_err_sep:
            f = np.linalg.solve(X.T @ X, X.T @ d.y)
        elif base == "TSLS" and kw.get("robust") != "ogmm" and not kw.get("regime_err_sep"):
            Q = expand(d.q, R, [True] * d.q.shape[1], labels)
            H, Z = np.hstack([X, Q]), np.hstack([X, ye])
            zh = Z.T @ H @ np.linalg.inv(H.T @ H)
            f = np.linalg.solve(zh @ H.T @ Z, zh @ H.T @ d.y)
        elif base == "ML_Lag":
            f = c.func("ml_lag:BaseML_Lag")(d.y, X, d.w, method=kw["method"]).betas
        elif base == "ML_Error":
            pass    # spatially filtered variables are expanded (see error_filtered)
        if base in ("GM_Error", "GM_Error_Hom", "ML_Error"):
            # as coded, the spatially filtered regressors are expanded: y - lam Wy on expand(x - lam Wx); residuals use the expanded x
            lam = float(np.asarray(o.betas)[-1, 0])
            x1 = np.hstack([np.ones((d.n, 1)), x])
            if base == "GM_Error_Hom":
                lam = None
            if lam is not None:
                F = np.eye(d.n) - lam * d.W
                X1 = expand(F @ x1, R, [kw["constant_regi"] == "many"] + flags, labels)
                c.eq("coefficients of the filtered, expanded problem", o.betas[:-1], np.linalg.solve(X1.T @ X1, X1.T @ (F @ d.y)), tol=1e-5)
            c.eq("residuals", np.asarray(o.u), d.y - X @ np.asarray(o.betas)[:-1], tol=1e-6)
        if f is not None:
            c.eq("coefficients of the expanded design", o.betas, f, tol=1e-5)
    c.frame_all("inputs unchanged")


@contract("C12", ["ols_regimes:OLS_Regimes._get_spat_diag_props", "twosls_regimes:TSLS_Regimes._get_spat_diag_props"],
          cases=[dict(kind=k) for k in ("OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "ML_Lag_Regimes")], sym=False, draws=3, bounded="random data n<=80")
def separate_diag(c, kind):
    """asking for diagnostics does not change the estimates, their covariance or the Chow tests."""
    kind, d, kw = zoo.cross_args(c, kind)
    kw.update(constant_regi="many", cols2regi="all")
    if kind != "ML_Lag_Regimes":
        kw["regime_err_sep"] = True
    if kind.endswith("Lag_Regimes"):
        kw["regime_lag_sep"] = zoo.flip(c)
        kw["slx_lags"] = 0
    a = dict(kw)
    a["spat_diag"] = False
    b = dict(kw)
    b["spat_diag"] = True
    try:
        o1, o2 = zoo.build(c, kind, a), zoo.build(c, kind, b)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    c.eq("coefficients", o2.betas, o1.betas)
    c.eq("residuals", np.asarray(o2.u), np.asarray(o1.u))
    c.eq("covariance", o2.vm, o1.vm)
    c.eq("joint Chow", [float(v) for v in o2.chow.joint], [float(v) for v in o1.chow.joint])


# ------------------------------------------------------------------ Class(regimes=...) is Class_Regimes
DISPATCH = {"OLS": "ols", "TSLS": "twosls", "GM_Lag": "twosls_sp", "ML_Lag": "ml_lag", "ML_Error": "ml_error", "GMM_Error": "error_sp"}
RMOD = {"OLS": "ols_regimes", "TSLS": "twosls_regimes", "GM_Lag": "twosls_sp_regimes", "ML_Lag": "ml_lag_regimes", "ML_Error": "ml_error_regimes",
        "GMM_Error": "error_sp_regimes"}


class Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


@contract("C12", ["%s:%s.__init__" % (m, k) for k, m in DISPATCH.items()], cases=[dict(kind=k) for k in DISPATCH], draws=2,
          note="every argument, whatever its value, reaches the regimes class under its own name")
def dispatch(c, kind):
    import inspect
    cls = getattr(c.mod(DISPATCH[kind]), kind)
    rcls = getattr(c.mod(RMOD[kind]), kind + "_Regimes")
    a, b = (inspect.signature(q.__init__).parameters for q in (cls, rcls))
    shared = [p for p in a if p in b and p not in ("self", "kwargs")]
    extra = [p for p in b if p not in a and p != "kwargs"]
    if c.symbolic:
        got = []
        kw = {p: Marker(p) for p in shared + extra}
        lists = {"slx_vars": [True, False]}
        c.stub("%s:%s_Regimes.__init__" % (RMOD[kind], kind), lambda self, *q, **z: got.append((q, z)))
        for vary in ({}, {"slx_vars": lists["slx_vars"]}) if "slx_vars" in a else ({},):
            call = dict(kw)
            if "slx_vars" in vary and "slx_vars" not in b:
                call.update(vary)          # passed on when it selects variables
            del got[:]
            o = cls(**call)
            c.same("one call of the regimes class", len(got), 1)
            c.same("an object of the regimes class", type(o) is rcls, True)
            q, z = got[0]
            c.same("by keyword", len(q), 0)
            for p in call:
                c.same("argument " + p, z.get(p) is call[p], True)
            c.same("nothing else", sorted(z), sorted(call))
        return
    k2, d, kw = zoo.cross_args(c, kind + "_Regimes" if kind != "GMM_Error" else "GM_Error_Regimes")
    if kind == "GMM_Error":
        kw.pop("cores", None)
        kw["estimator"] = zoo.pick(c, "kp98", "het", "hom")
    if not kw.get("regime_err_sep") and not kw.get("regime_lag_sep") and kind in ("OLS", "TSLS", "GM_Lag") and d.k > 1 and zoo.flip(c):
        kw.update(slx_lags=1, slx_vars=[True] + [False] * (d.k - 1), cols2regi="all")
    try:
        m1 = zoo.build(c, kind + "_Regimes", kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    m2 = zoo.build(c, kind, kw)
    for nm in ("betas", "vm", "u", "predy"):
        if getattr(m1, nm, None) is not None:
            c.eq("same " + nm, np.asarray(getattr(m2, nm)), np.asarray(getattr(m1, nm)))
    for nm in ("name_y", "name_x", "name_z", "name_yend", "name_q", "name_w", "name_ds", "name_regimes"):
        if hasattr(m1, nm):
            c.same("same " + nm, getattr(m2, nm, None), getattr(m1, nm))
    c.same("same class", type(m2).__name__, type(m1).__name__)


# ------------------------------------------------------------------ joint estimation when no links cross the regimes
def within_w(c, n, R):
    """row-standardised weights without links across regimes."""
    import libpysal
    nb = {i: set() for i in range(n)}
    for r in set(R):
        ids = [i for i in range(n) if R[i] == r]
        c.rng.shuffle(ids)
        for a, b in zip(ids, ids[1:] + ids[:1]):
            nb[a].add(b)
            nb[b].add(a)
        for i in ids:
            j = int(c.rng.choice(ids))
            if j != i:
                nb[i].add(j)
    w = libpysal.weights.W({i: sorted(nb[i]) for i in nb}, silence_warnings=True)
    w.transform = "r"
    c.inputs["W"] = w
    c.copies["W"] = w.sparse.toarray().copy()
    return w


def lag_powers(W, A, m):
    out, v = [], A
    for _ in range(m):
        v = W @ v
        out.append(v)
    return out


def filtered_once(F, c, y, X, ye, q, w, opts):
    """the plain estimator with y, X and the endogenous variables always filtered with the first lambda."""
    U = c.mod("utils")
    of, oo, first = U.get_spFilter, U.optim_moments, []

    def optim(*a, **k):
        v = oo(*a, **k)
        first.append(v)
        return v
    U.optim_moments = optim
    U.get_spFilter = lambda w_, lam, sf: of(w_, first[0] if any(np.shape(sf) == np.shape(a) and np.array_equal(sf, a) for a in (y, X, ye)) else lam, sf)
    try:
        with zoo.quiet():
            return F(y, X, ye, q, w.sparse, **opts)
    finally:
        U.get_spFilter, U.optim_moments = of, oo


JOINT = [k for k in SEP if k not in ("OLS_Regimes", "TSLS_Regimes")]


@contract("C12", ["%s:%s.__init__" % (m, k) for m, k in (
    ("twosls_sp_regimes", "GM_Lag_Regimes"), ("error_sp_regimes", "GM_Error_Regimes"), ("error_sp_regimes", "GM_Endog_Error_Regimes"), ("error_sp_regimes", "GM_Combo_Regimes"),
    ("error_sp_het_regimes", "GM_Error_Het_Regimes"), ("error_sp_het_regimes", "GM_Endog_Error_Het_Regimes"),
    ("error_sp_het_regimes", "GM_Combo_Het_Regimes"), ("error_sp_hom_regimes", "GM_Error_Hom_Regimes"),
    ("error_sp_hom_regimes", "GM_Endog_Error_Hom_Regimes"), ("error_sp_hom_regimes", "GM_Combo_Hom_Regimes"),
    ("ml_lag_regimes", "ML_Lag_Regimes"), ("ml_error_regimes", "ML_Error_Regimes"))],
    cases=[dict(kind=k) for k in JOINT], sym=False, draws=4, timeout=120, bounded="random data n<=80, 2-3 regimes, weights without links across regimes")
def joint(c, kind):
    """one spatial parameter for all regimes, weights without links across regimes: the plain estimator on the expanded design."""
    kind, d, kw = zoo.cross_args(c, kind)
    for a in ("regime_err_sep", "regime_lag_sep"):
        if a in kw:
            kw[a] = False
    kw.pop("spat_impacts", None)
    if not isinstance(kw["cols2regi"], str):
        kw["slx_lags"] = 0
    sl = kw["slx_lags"] = kw["slx_lags"] and zoo.pick(c, 1, 2)
    if "spat_diag" in kw:
        kw["spat_diag"] = False
    if kw.get("robust") == "hac":
        kw["robust"] = "white"
        kw.pop("gwk", None)
    if "max_iter" in kw:
        kw["max_iter"] = zoo.pick(c, 1, 2, 4)
    if "method" in kw:
        kw["method"] = "full"
    R, n = kw["regimes"], d.n
    labels = sorted(set(R))
    w = kw["w"] = within_w(c, n, R)
    W = c.wd(w)
    base = kind.replace("_Regimes", "")
    xs = lag_powers(W, d.x, sl)
    x1 = np.hstack([np.ones((n, 1)), d.x] + xs)
    allv = isinstance(kw["cols2regi"], str)
    fx = [kw["constant_regi"] == "many"] + ([True] * (x1.shape[1] - 1) if allv else list(kw["cols2regi"])[:d.k])
    X = expand(x1, R, fx, labels)
    ye = q = None
    if d.yend is not None:
        fe = [True] * d.yend.shape[1] if allv else list(kw["cols2regi"])[d.k:]
        ye, q = expand(d.yend, R, fe, labels), expand(d.q, R, [True] * d.q.shape[1], labels)
    lag = "Lag" in base or "Combo" in base
    ml = base.startswith("ML")
    if lag and not ml:
        inst = [(xs or [d.x])[-1]] + ([d.q] if d.q is not None and kw["lag_q"] else [])
        wq = np.hstack(sum([lag_powers(W, a, kw["w_lags"]) for a in inst], []))
        wy = W @ d.y
    opts = {a: kw[a] for a in ("max_iter", "A1", "step1c", "inv_method", "sig2n_k", "robust") if a in kw}
    try:
        with zoo.quiet():
            o = zoo.build(c, kind, kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    if lag and not ml:
        # the instruments: lags of the plain or of the expanded variables
        wqs = [wq, expand(wq, R, [True] * wq.shape[1], labels)]
        ye = wy if ye is None else np.hstack([ye, wy])
        qs = [a if q is None else np.hstack([q, a]) for a in wqs]
        c.assume(all(np.linalg.cond(np.hstack([X, a])) < 1e6 for a in qs))      # a small regime has fewer observations than instruments
    else:
        qs = [q]
    if base in ("GM_Endog_Error_Het", "GM_Combo_Het"):         # known finding F03: the plain estimator clips its last 2SLS coefficient
        c.assume(max(abs(c.func("twosls:BaseTSLS")(d.y, X, ye, a).betas[-1, 0]) for a in qs) < 0.9 and abs(o.betas[-2, 0]) < 0.9)
    mod = {"GM_Lag": "twosls:BaseTSLS", "GM_Error": "error_sp:BaseGM_Error", "GM_Endog_Error": "error_sp:BaseGM_Endog_Error", "GM_Combo": "error_sp:BaseGM_Endog_Error",
           "GM_Error_Het": "error_sp_het:BaseGM_Error_Het", "GM_Endog_Error_Het": "error_sp_het:BaseGM_Endog_Error_Het", "GM_Combo_Het": "error_sp_het:BaseGM_Endog_Error_Het",
           "GM_Error_Hom": "error_sp_hom:BaseGM_Error_Hom", "GM_Endog_Error_Hom": "error_sp_hom:BaseGM_Endog_Error_Hom", "GM_Combo_Hom": "error_sp_hom:BaseGM_Endog_Error_Hom",
           "ML_Lag": "ml_lag:BaseML_Lag", "ML_Error": "ml_error:BaseML_Error"}[base]
    F = c.func(mod)
    refs = []
    for qq in qs:
        with zoo.quiet():
            if base == "GM_Lag":
                refs.append(F(d.y, X, ye, qq, **opts))
            elif ml:
                refs.append(F(d.y, X, w, method="full"))
            elif ye is not None:
                refs.append(F(d.y, X, ye, qq, w.sparse, **opts))
            else:
                refs.append(F(d.y, X, w.sparse, **opts))
    if base in ("GM_Endog_Error_Het", "GM_Combo_Het") and (kw["step1c"] or kw["max_iter"] > 1):
        # known finding (joint_het_steps): the data stay filtered with the first lambda
        refs += [filtered_once(F, c, d.y, X, ye, a, w, opts) for a in qs]
    if len(refs) > 1:
        dist = [float(np.abs(o.betas - r.betas).max()) for r in refs]
        ref = refs[int(np.argmin(dist))]
    else:
        ref = refs[0]
    c.eq("coefficients", o.betas, ref.betas, tol=2e-5)
    c.eq("covariance", o.vm, ref.vm, tol=2e-4, scale=float(np.abs(ref.vm).max()))
    for a in ("u", "predy", "e_filtered", "sig2", "e_pred", "predy_e", "logll", "lam", "rho"):
        if getattr(ref, a, None) is not None and getattr(o, a, None) is not None:
            c.eq("the same " + a, np.asarray(getattr(o, a), float), np.asarray(getattr(ref, a), float), tol=1e-4)
    c.frame_all("inputs unchanged")


@contract("C12", ["error_sp_het_regimes:GM_Endog_Error_Het_Regimes.__init__"], cases=[dict(step1c=True, max_iter=1), dict(step1c=False, max_iter=3)], sym=False, draws=3,
          bounded="random data n<=80, 2-3 regimes, weights without links across regimes")
def joint_het_steps(c, step1c, max_iter):
    """the filter follows the lambda of the step before."""
    kind, d, kw = zoo.cross_args(c, "GM_Endog_Error_Het_Regimes")
    kw.update(regime_err_sep=False, slx_lags=0, step1c=step1c, max_iter=max_iter, constant_regi="many", cols2regi="all")
    R = kw["regimes"]
    labels = sorted(set(R))
    w = kw["w"] = within_w(c, d.n, R)
    X, ye, q = (expand(a, R, [True] * a.shape[1], labels) for a in (np.hstack([np.ones((d.n, 1)), d.x]), d.yend, d.q))
    c.assume(abs(c.func("twosls:BaseTSLS")(d.y, X, ye, q).betas[-1, 0]) < 0.9)
    o = zoo.build(c, kind, kw)
    with zoo.quiet():
        ref = c.func("error_sp_het:BaseGM_Endog_Error_Het")(d.y, X, ye, q, w.sparse, max_iter=max_iter, step1c=step1c, inv_method=kw["inv_method"])
    c.assume(abs(ref.betas[-2, 0]) < 0.9 and abs(o.betas[-2, 0]) < 0.9)
    c.eq("the data are filtered with the lambda of the step before", o.betas, ref.betas, tol=1e-6)


@contract("C12", ["ols_regimes:OLS_Regimes.__init__", "twosls_regimes:TSLS_Regimes.__init__", "twosls_sp_regimes:GM_Lag_Regimes.__init__", "error_sp_regimes:GM_Error_Regimes.__init__", "error_sp_het_regimes:GM_Error_Het_Regimes.__init__", "error_sp_hom_regimes:GM_Error_Hom_Regimes.__init__", "ml_lag_regimes:ML_Lag_Regimes.__init__", "ml_error_regimes:ML_Error_Regimes.__init__"], cases=[dict(kind=k) for k in ["OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "GM_Error_Regimes", "GM_Error_Het_Regimes", "GM_Error_Hom_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes"]], sym=False, draws=3,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ group-wise heteroskedasticity with shared coefficients
@contract("C12", ["regimes:_get_weighted_var", "ols_regimes:OLS_Regimes.__init__", "regimes:check_cols2regi"],
          cases=[dict(one=o, sig2n_k=s) for o in (True, False) for s in (True, False)], sym=False, draws=2, bounded="random data n<=80, 2-3 regimes")
def groupwise(c, one, sig2n_k):
    """separate error variances with coefficients shared across regimes: least squares weighted by every regime's own residual variance."""
    d = K.spdata(c, n=c.dim("n", 60, 80), k=2, wkind="row")
    R = zoo.regimes_of(c, d.n)
    labels = sorted(set(R))
    y = d.y + d.y.std() * c.rng.randn(d.n, 1) * np.array([[0.1 + 2.0 * labels.index(r)] for r in R])
    flags = [zoo.flip(c), zoo.flip(c)]
    c.assume(any(flags) if one else not all(flags))
    with zoo.quiet():
        o = c.func("ols_regimes:OLS_Regimes")(y, d.x, R, regime_err_sep=True, constant_regi="one" if one else "many", cols2regi=list(flags), sig2n_k=sig2n_k)
    Z = expand(np.hstack([np.ones((d.n, 1)), d.x]), R, [not one] + flags, labels)
    u = y - Z @ np.linalg.solve(Z.T @ Z, Z.T @ y)
    s = np.zeros((d.n, 1))
    for r in labels:
        ix = [i for i in range(d.n) if R[i] == r]
        dof = len(ix) - (Z.shape[1] if sig2n_k else 0)
        c.assume(dof > 2)
        s[ix] = np.sqrt((u[ix] ** 2).sum() / dof)
    Zs, ys = Z / s, y / s
    b = np.linalg.solve(Zs.T @ Zs, Zs.T @ ys)
    us = ys - Zs @ b
    s2 = float((us.T @ us).item()) / (d.n - (Z.shape[1] if sig2n_k else 0))
    V = np.linalg.inv(Zs.T @ Zs) * s2
    c.eq("weighted least squares coefficients", o.betas, b, scale=float(abs(b).max()))
    c.eq("covariance of the weighted fit", o.vm, V, scale=float(abs(V).max()))
    c.eq("predicted values", o.predy, Z @ b, scale=float(abs(y).max()))
    c.eq("residuals", o.u, y - Z @ b, scale=float(abs(y).max()))
    c.eq("standard errors", np.asarray(o.std_err).ravel(), np.sqrt(np.diag(V)))
    chow_check(c, o, R)
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ regressors that are constant within a regime
def with_constant_columns(c, kind, m=None):
    """separate-regimes arguments, and the same with regressors that do not vary within one regime put between the others."""
    d, kw = separate_args(c, kind)
    kw["slx_lags"] = 0
    R = kw["regimes"]
    labels = sorted(set(R))
    n, k = d.n, d.k
    kw.update(name_x=["v%d" % j for j in range(k)], name_y="dep")
    cols, names = [d.x[:, [j]] for j in range(k)], list(kw["name_x"])
    for j in range(m or c.rng.randint(1, 4)):
        z = np.round(c.rng.randn(n, 1), 3)
        r = labels[j % len(labels)]
        z[[i for i in range(n) if R[i] == r]] = c.rng.choice([0.0, 1.5, -2.0])
        at = c.rng.randint(0, len(cols) + 1)
        cols.insert(at, z)
        names.insert(at, "const_%d" % j)
    kw2 = dict(kw, x=np.hstack(cols), name_x=names)
    return d, kw, kw2


@contract("C12", ["regimes:check_const_regi"] + ["%s:%s.__init__" % (m, k) for m, k in (
    ("ols_regimes", "OLS_Regimes"), ("twosls_regimes", "TSLS_Regimes"), ("twosls_sp_regimes", "GM_Lag_Regimes"),
    ("error_sp_regimes", "GM_Error_Regimes"), ("error_sp_regimes", "GM_Endog_Error_Regimes"), ("error_sp_regimes", "GM_Combo_Regimes"),
    ("error_sp_het_regimes", "GM_Error_Het_Regimes"), ("error_sp_hom_regimes", "GM_Error_Hom_Regimes"),
    ("ml_lag_regimes", "ML_Lag_Regimes"), ("ml_error_regimes", "ML_Error_Regimes"))],
    cases=[dict(kind=k) for k in SEP], sym=False, draws=1, timeout=120, bounded="random data n<=80, 2-3 regimes, 1-3 such regressors at random places")
def constant_within_regime(c, kind):
    """a regressor constant within a regime is left out of every regime: the model is the one without it."""
    d, kw, kw2 = with_constant_columns(c, kind)
    try:
        a = fit(kind, kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    b = fit(kind, kw2)
    c.same("names of the remaining coefficients", names_of(b), names_of(a))
    c.same("number of coefficients and of variances", (np.shape(b.betas), np.shape(b.vm)), (np.shape(a.betas), np.shape(a.vm)))
    for t in ("betas", "vm", "u", "predy"):
        v = np.asarray(getattr(a, t))
        c.eq(t + " of the model without it", getattr(b, t), v, scale=float(abs(v).max()))
    c.eq("Chow tests of the model without it", b.chow.regi, a.chow.regi, scale=1 + float(abs(a.chow.regi).max()))
    c.eq("joint Chow test of the model without it", np.array(b.chow.joint), np.array(a.chow.joint), scale=1 + float(abs(a.chow.joint[0])))
    c.true("the user is told", "removed for being constant" in b.summary or "removed for being constant" in str(getattr(b, "warning", "")))
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ covariance of the joint fits without a spatial error
@contract("C12", ["ols_regimes:OLS_Regimes.__init__", "twosls_regimes:TSLS_Regimes.__init__", "twosls_sp_regimes:GM_Lag_Regimes.__init__"],
          cases=[dict(kind="OLS_Regimes", robust=r) for r in (None, "white", "hac")] + [dict(kind="TSLS_Regimes", robust=r) for r in (None, "white", "hac", "ogmm")] +
          [dict(kind="GM_Lag_Regimes", robust=r) for r in ("hac", "hac by regime", "white")], sym=False, draws=3, timeout=120,
          bounded="random data n<=80, 2-3 regimes, any choice of varying coefficients")
def joint_covariance(c, kind, robust):
    """one fit for all regimes: coefficients and covariance (classical, white, HAC, optimal weights) of the plain estimator on the expanded design;
    asking for separate errors together with HAC changes nothing."""
    kind, d, kw = zoo.cross_args(c, kind)
    kw.pop("spat_impacts", None), kw.pop("slx_vars", None), kw.pop("gwk", None)
    sep, robust = robust == "hac by regime", robust and robust.split()[0]
    kw.update(robust=robust, slx_lags=0, spat_diag=False)
    hac = robust == "hac"
    if hac:
        kw["gwk"] = K.kernel_weights(c, "G", d.n)
    if kind == "GM_Lag_Regimes":
        kw["regime_err_sep"] = kw["regime_lag_sep"] = sep
    else:
        kw["regime_err_sep"] = hac and zoo.flip(c)
    if sep:
        kw["cols2regi"] = "all"
    R, n = kw["regimes"], d.n
    labels = sorted(set(R))
    o = fit(kind, kw)
    c.true("one fit", not hasattr(o, "multi"))
    allv = isinstance(kw["cols2regi"], str)
    X = expand(np.hstack([np.ones((n, 1)), d.x]), R, [kw["constant_regi"] == "many"] + ([True] * d.k if allv else list(kw["cols2regi"])[:d.k]), labels)
    opts = dict(sig2n_k=kw["sig2n_k"], robust=None if robust == "ogmm" else robust)
    if hac:
        opts["gwk"] = kw["gwk"]
    if kind == "OLS_Regimes":
        refs = [c.func("ols:BaseOLS")(d.y, X, **opts)]
    else:
        E = [] if d.yend is None else [d.yend]
        fe = [] if d.yend is None else [True] * d.yend.shape[1] if allv else list(kw["cols2regi"])[d.k:]
        Q = [] if d.q is None else [d.q]
        if kind == "GM_Lag_Regimes":
            W = d.W
            if sep:
                W = np.array([[a == b for b in R] for a in R], float) * d.W
                W = W / W.sum(1, keepdims=True)
            E, fe = E + [W @ d.y], list(fe) + [sep]
            Q = Q + sum([lag_powers(W, a, kw["w_lags"]) for a in [d.x] + ([d.q] if d.q is not None and kw["lag_q"] else [])], [])
        Q = np.hstack(Q)
        Q = expand(Q, R, [True] * Q.shape[1], labels)
        c.assume(np.linalg.cond(np.hstack([X, Q])) < 1e6)
        ref = c.func("twosls:BaseTSLS")(d.y, X, expand(np.hstack(E), R, fe, labels), Q, **opts)
        if robust == "ogmm":
            m = n - ref.k if kw["sig2n_k"] else n
            H, Z = np.asarray(ref.h, float), np.asarray(ref.z, float)
            S = np.linalg.inv(H.T @ (H * np.asarray(ref.u) ** 2) / m)
            ref.vm = np.linalg.inv(Z.T @ H @ S @ H.T @ Z)
            ref.betas = ref.vm @ (Z.T @ H @ S @ H.T @ d.y)
            ref.vm = ref.vm * m
            ref.u = d.y - Z @ ref.betas
        refs = [ref]
    ref = refs[0]
    c.eq("coefficients", o.betas, ref.betas, tol=1e-5, scale=float(np.abs(ref.betas).max()))
    c.eq("covariance", o.vm, ref.vm, tol=1e-4, scale=float(np.abs(ref.vm).max()))
    c.eq("residuals", np.asarray(o.u), np.asarray(ref.u), tol=1e-5, scale=float(np.abs(ref.u).max()))
    chow_check(c, o, R)
    c.frame_all("inputs unchanged")


@contract("C12", ["error_sp_regimes:GMM_Error_Regimes.__init__"], cases=[dict(estimator=s, endog=e, add_wy=a) for s in ("kp98", "het", "hom") for e in (False, True) for a in (False, True)],
          num=False, note="every argument, whatever its value, reaches the class that estimator, endogenous variables and add_wy select")
def gmm_error_regimes_dispatch(c, estimator, endog, add_wy):
    K.gmm_choice(c, estimator, endog, add_wy, regimes=True, options=["w_lags", "lag_q"] if add_wy else [])
