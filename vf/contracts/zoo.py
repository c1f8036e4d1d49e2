"""The model zoo: one builder per public estimator, drawing data and options at random (concrete mode only).

Every builder returns (model, info) with info.fam ("t"/"z"), info.kind and the keyword arguments used, so the same calls can be
repeated (C22), checked for inference (C09), impacts (C13) and input handling (C21).
"""
import contextlib
import io
import warnings

import numpy as np

from . import common as K


class Info:
    pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def pick(c, *xs):
    return xs[c.rng.randint(len(xs))]


def flip(c, p=0.5):
    return bool(c.rng.rand() < p)


def regimes_of(c, n, nr=None):
    nr = nr or c.rng.randint(2, 4)
    while True:
        r = c.rng.randint(0, nr, n)
        if min(np.bincount(r, minlength=nr)) >= 10:
            break
    labels = pick(c, ["a", "b", "c"], [1, 2, 3], [3, 1, 2], ["north", "east", "z"])
    return [labels[i] for i in r]


def rw(d, w):
    """rescaled row-standardised copy of W so ML models and filters are well behaved."""
    import libpysal
    W = libpysal.weights.W({k: list(v) for k, v in w.neighbors.items()}, {k: list(v) for k, v in w.weights.items()},
                           id_order=list(w.id_order), silence_warnings=True)
    W.transform = "r"
    return W


def within_connected(c, w, regimes):
    """every observation keeps a neighbour inside its regime (needed for regime-wise weights)."""
    R = dict(zip(w.id_order, regimes))
    return all(any(R[j] == R[i] for j in w.neighbors[i]) for i in w.id_order)


def regime_w(c, n, regimes, sym=False):
    """weights in which every observation has at least two neighbours in its own regime, plus links across regimes."""
    import libpysal
    nb = {i: set() for i in range(n)}
    for r in sorted(set(map(str, regimes))):
        ids = [i for i in range(n) if str(regimes[i]) == r]
        c.rng.shuffle(ids)
        for a, b in zip(ids, ids[1:] + ids[:1]):
            nb[a].add(b)
            nb[b].add(a)
    for i in range(n):
        for j in c.rng.choice(n, size=2, replace=False):
            if i != j:
                nb[i].add(int(j))
                if sym or flip(c):
                    nb[int(j)].add(i)
    if flip(c, 0.3):         # observations known by names; the dictionaries follow another order than id_order
        name = ["id%d" % v for v in c.rng.permutation(n)]
        w = libpysal.weights.W({name[i]: [name[j] for j in nb[i]] for i in c.rng.permutation(n)}, id_order=name, silence_warnings=True)
    else:
        w = libpysal.weights.W({i: sorted(nb[i]) for i in nb}, silence_warnings=True)
    w.transform = "r"
    c.inputs["W"] = w
    c.copies["W"] = w.sparse.toarray().copy()
    return w


CROSS = ["OLS", "TSLS", "GM_Lag", "GM_Error", "GM_Endog_Error", "GM_Combo", "GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het",
         "GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom", "GMM_Error", "ML_Lag", "ML_Error", "Probit"]
REGIMES = ["OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "GM_Error_Regimes", "GM_Endog_Error_Regimes", "GM_Combo_Regimes",
           "GM_Error_Het_Regimes", "GM_Endog_Error_Het_Regimes", "GM_Combo_Het_Regimes", "GM_Error_Hom_Regimes",
           "GM_Endog_Error_Hom_Regimes", "GM_Combo_Hom_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes"]
SYSTEMS = ["SUR", "ThreeSLS", "SURerrorGM", "SURerrorML", "SURlagIV"]
PANELS_NEW = ["ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorRE", "PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE"]
PANELS = ["Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "GM_KKP"]


def needs_endog(kind):
    return kind.startswith("TSLS") or "Endog" in kind


def cross_args(c, kind, pandas=False, n=None, k=None, nr=None):
    """(class name, data, kwargs) for a cross-sectional estimator with random admissible options."""
    e = 1 if needs_endog(kind) else (pick(c, 0, 0, 1) if ("Combo" in kind or kind.startswith("GM_Lag") or kind == "GMM_Error") else 0)
    if kind.endswith("_Regimes"):
        n = n or c.dim("n", 60, 80)
    d = K.spdata(c, n=n, k=k or pick(c, 1, 2, 2), endog=e, wkind="row")
    kw = K.call_args(c, d, pandas)
    n = d.n
    if kind.endswith("_Regimes"):
        kw["regimes"] = regimes_of(c, n, nr)
        d.w = regime_w(c, n, kw["regimes"])
        d.W = c.wd(d.w)
        kw["name_regimes"] = "reg"
    base = kind.replace("_Regimes", "")
    slx = pick(c, 0, 0, 1)
    if base in ("OLS", "TSLS"):
        rob = pick(c, None, "white", "hac")
        kw["robust"] = rob
        if rob == "hac":
            kw["gwk"] = K.kernel_weights(c, "K", n)
        kw["sig2n_k"] = flip(c)
        kw["spat_diag"] = flip(c)
        kw["w"] = d.w
        kw["slx_lags"] = slx
        kw["name_w"] = "wname"
    elif base == "Probit":
        d.y = K.reg(c, "y", (d.y > np.median(d.y)).astype(float))
        # noisy enough for a finite maximum
        fl = c.rng.rand(n) < 0.25
        d.y[fl, 0] = 1 - d.y[fl, 0]
        c.copies["y"] = d.y.copy()
        if pandas:
            import pandas as pd
            kw["y"] = pd.Series(d.y[:, 0], name="dep")
        else:
            kw["y"] = d.y
        kw.update(w=d.w, slx_lags=slx, optim=pick(c, "newton", "bfgs"), scalem=pick(c, "phimean", "xmean"), spat_diag=flip(c), predflag=flip(c))
    elif base == "GM_Lag":
        kw.update(w=d.w, w_lags=pick(c, 1, 2), slx_lags=slx, lag_q=flip(c), sig2n_k=flip(c), spat_diag=flip(c))
        rob = pick(c, None, "white", "hac")
        kw["robust"] = rob
        if rob == "hac":
            kw["gwk"] = K.kernel_weights(c, "K", n)
        kw["spat_impacts"] = pick(c, None, "simple", "full", "all")
    elif base in ("ML_Lag", "ML_Error"):
        kw.update(w=d.w, slx_lags=slx, method=pick(c, "full", "LU", "ord"))
        if base == "ML_Lag":
            kw.update(spat_diag=flip(c), spat_impacts=pick(c, None, "simple", "full", "all"))
    elif base == "GMM_Error":
        kw.update(w=d.w, slx_lags=slx, estimator=pick(c, "het", "hom", "kp98"))
        kw["add_wy"] = flip(c)
    else:
        kw.update(w=d.w, slx_lags=slx)
        if "Combo" in base:
            kw.update(w_lags=pick(c, 1, 2), lag_q=flip(c))
        if base.endswith("Het"):
            kw.update(step1c=flip(c), max_iter=pick(c, 1, 2))
            if base != "GM_Error_Het":
                kw["inv_method"] = "true_inv"
        if base.endswith("Hom"):
            kw.update(A1=pick(c, "hom", "hom_sc", "het"), max_iter=pick(c, 1, 2))
    kw["vm"] = flip(c, 0.3)
    kw["name_ds"] = "dsname"
    if kind.endswith("_Regimes"):
        kw["constant_regi"] = pick(c, "many", "many", "one")
        ncol = d.k + (0 if d.yend is None else d.yend.shape[1])
        kw["cols2regi"] = pick(c, "all", "all", "mixed")
        if kw["cols2regi"] == "mixed":
            kw["slx_lags"] = 0
            kw["cols2regi"] = [flip(c) for _ in range(ncol)]
            if not any(kw["cols2regi"]):
                kw["cols2regi"][0] = True
        sep = kw["cols2regi"] == "all" and kw["constant_regi"] == "many" and flip(c, 0.4)
        if base in ("ML_Lag", "GM_Lag"):
            kw["regime_lag_sep"] = sep
            if base == "GM_Lag":
                kw["regime_err_sep"] = sep or (flip(c) and kw["cols2regi"] == "all" and kw["constant_regi"] == "many")
        else:
            kw["regime_err_sep"] = sep
            if "Combo" in base:
                kw["regime_lag_sep"] = sep
            if base == "OLS":
                kw["regime_err_sep"] = sep
    return kind, d, kw


def build(c, kind, kw):
    import spreg
    with quiet():
        return getattr(spreg, kind)(**kw)


def make_cross(c, kind, pandas=False, n=None):
    kind, d, kw = cross_args(c, kind, pandas, n)
    m = build(c, kind, kw)
    info = Info()
    info.kind, info.d, info.kw = kind, d, kw
    info.fam = "t" if "OLS" in kind else "z"
    return m, info


# ------------------------------------------------------------------ systems and panels
def system_args(c, kind, neq=None, n=None, k=None, diff=None):
    import spreg
    n = n or c.dim("n", 35, 50)
    G = neq or pick(c, 2, 3)
    diff = flip(c) if diff is None else diff
    ks = [(k or pick(c, 1, 2)) + (int(r) if diff else 0) for r in (c.rng.rand(G) < 0.5)] if diff else [k or pick(c, 1, 2)] * G
    w = regime_w(c, n, ["a"] * n)
    W = c.wd(w)
    L = np.linalg.cholesky(np.eye(G) + 0.4 * (np.ones((G, G)) - np.eye(G)))
    E = c.rng.randn(n, G) @ L.T * 0.7
    bigy, bigX, bigyend, bigq = {}, {}, {}, {}
    ny, nx, nye, nq = {}, {}, {}, {}
    for r in range(G):
        x = c.rng.randn(n, ks[r])
        u = np.linalg.solve(np.eye(n) - 0.3 * W, E[:, [r]])
        m = 1 + x @ c.rng.uniform(0.5, 1.5, (ks[r], 1))
        if kind == "ThreeSLS" or (kind == "SURlagIV" and flip(c) and (bigyend or r == 0)):
            q = c.rng.randn(n, 2)
            ye = q @ c.rng.uniform(0.6, 1.4, (2, 1)) + c.rng.randn(n, 1) * 0.5 + 0.3 * u
            bigyend[r], bigq[r] = ye, q
            m = m + 0.7 * ye
            nye[r] = ["en%d" % r]
            nq[r] = ["q%d_%d" % (r, j) for j in range(2)]
        y = np.linalg.solve(np.eye(n) - (0.3 if kind == "SURlagIV" else 0) * W, m + u)
        bigy[r], bigX[r] = y, np.hstack([np.ones((n, 1)), x])
        ny[r] = "y%d" % r
        nx[r] = ["CONSTANT_%d" % r] + ["x%d_%d" % (r, j) for j in range(ks[r])]
    if len(bigyend) not in (0, G):
        bigyend, bigq, nye, nq = {}, {}, {}, {}
    d = Info()
    d.n, d.G, d.w, d.W, d.E = n, G, w, W, E
    d.bigy, d.bigX, d.bigyend, d.bigq = bigy, bigX, bigyend, bigq
    kw = dict(bigy=bigy, bigX=bigX, name_bigy=ny, name_bigX=nx)
    for nm, dd in (("bigy", bigy), ("bigX", bigX), ("bigyend", bigyend), ("bigq", bigq)):
        for r in dd:
            K.reg(c, "%s%d" % (nm, r), dd[r])
    if kind == "SUR":
        kw.update(w=w, nonspat_diag=True, spat_diag=flip(c), iter=flip(c))
    elif kind == "ThreeSLS":
        kw.update(bigyend=bigyend, bigq=bigq, name_bigyend=nye, name_bigq=nq)
    elif kind in ("SURerrorGM", "SURerrorML"):
        kw.update(w=w, spat_diag=flip(c)) if kind == "SURerrorML" else kw.update(w=w)
    else:
        kw.update(w=w, w_lags=pick(c, 1, 2, 3))
        if bigyend:
            kw.update(bigyend=bigyend, bigq=bigq, name_bigyend=nye, name_bigq=nq, lag_q=flip(c))
    d.kw = kw
    return kind, d, kw


def make_system(c, kind, **kw_):
    kind, d, kw = system_args(c, kind, **kw_)
    m = build(c, kind, kw)
    info = Info()
    info.kind, info.d, info.kw, info.fam = kind, d, kw, "z"
    return m, info


def panel_args(c, kind, n=None, T=None, k=None, layout="wide"):
    n, T, k = n or c.dim("n", 20, 30), T or c.dim("T", 3, 5), k or pick(c, 1, 2, 3)
    w = regime_w(c, n, ["a"] * n, sym=kind == "Panel_RE_Error")     # asymmetric weights: known finding F07 (C19)
    W = c.wd(w)
    mu = c.rng.randn(n, 1) * 0.6
    xs = [c.rng.randn(n, T) for _ in range(k)]
    A = np.linalg.inv(np.eye(n) - 0.35 * W)
    b = c.rng.uniform(0.6, 1.4, k)
    Y = np.zeros((n, T))
    for t in range(T):
        e = c.rng.randn(n, 1) * 0.7
        m = 1 + sum(b[j] * xs[j][:, [t]] for j in range(k)) + mu
        Y[:, [t]] = (A @ (m + e)) if "Lag" in kind else m + A @ e
    X = np.hstack(xs)
    d = Info()
    d.n, d.T, d.k, d.w, d.W, d.Y, d.X, d.xs = n, T, k, w, W, K.reg(c, "y", Y), K.reg(c, "x", X), xs
    kw = dict(y=Y, x=X, w=w)
    if kind != "GM_KKP":
        kw.update(name_y=["dep%d" % t for t in range(T)], name_x=["%s%d" % ("abc"[j] * 2, t) for j in range(k) for t in range(T)])
    else:
        kw.update(name_y=["dep%d" % t for t in range(T)], name_x=["%s%d" % ("abc"[j] * 2, t) for j in range(k) for t in range(T)], full_weights=flip(c))
    d.kw = kw
    return kind, d, kw


def make_panel(c, kind, **kw_):
    kind, d, kw = panel_args(c, kind, **kw_)
    m = build(c, kind, kw)
    info = Info()
    info.kind, info.d, info.kw, info.fam = kind, d, kw, "z"
    return m, info


# ------------------------------------------------------------------ units of measurement
def units(c, kind, tol=1e-3, scale=(-24, -16, 12, 20)):
    """Estimates do not depend on the units the regressors (and excluded instruments) are measured in: with x_j replaced by 2^p x_j the
    coefficient is divided by 2^p, and the residuals, the predictions, the other coefficients and the z (t) statistics stay."""
    kind, d, kw = cross_args(c, kind)
    if "spat_diag" in kw:
        kw["spat_diag"] = False
    if "spat_impacts" in kw:
        kw["spat_impacts"] = None
    a = build(c, kind, dict(kw))
    p = 2.0 ** c.rng.choice(scale, size=d.k)
    kw2 = dict(kw, x=d.x * p)
    if d.yend is not None:
        kw2["q"] = d.q * 2.0 ** c.rng.choice(scale, size=d.q.shape[1])
    b = build(c, kind, kw2)
    c.eq("residuals do not depend on units", b.u, a.u, tol=tol, scale=float(abs(a.u).max()))
    c.eq("predictions do not depend on units", b.predy, a.predy, tol=tol, scale=float(abs(a.predy).max()))
    if kind.endswith("_Regimes"):
        def z(o):
            return np.sort([abs(v) for v in o.output["zt_stat"] if isinstance(v, (int, float)) and v == v])
        c.true("the table has statistics", len(z(a)) > 0)
        c.eq("significance of the coefficients does not depend on units", z(b), z(a), tol=10 * tol, scale=float(max(1.0, z(a).max())))
        return
    names = [str(v) for v in a.output["var_names"]] if len(a.output) == len(a.betas) else list(a.name_x)
    f = np.ones((len(a.betas), 1))
    for i, nm in enumerate(names):
        for j, v in enumerate(d.nx):
            if nm == v or (nm.startswith("W") and nm.endswith("_" + v)):
                f[i, 0] = p[j]
    c.eq("coefficients follow the units of the regressors", np.asarray(b.betas) * f, np.asarray(a.betas), tol=tol, scale=max(1.0, float(abs(a.betas).max())))
    m = min(len(f), len(a.vm))
    F = f[:m]
    sd = np.sqrt(np.abs(np.diag(a.vm)[:m])).reshape(-1, 1)
    c.eq("covariances follow the units", (np.asarray(b.vm)[:m, :m] * F * F.T) / (sd * sd.T), np.asarray(a.vm)[:m, :m] / (sd * sd.T), tol=10 * tol, scale=1.0)
