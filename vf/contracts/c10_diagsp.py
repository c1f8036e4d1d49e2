"""C10: spatial diagnostics equal their published statistics."""
import numpy as np

from ..engine import contract
from . import common as K
from . import zoo


class _R:
    pass


class _VT:
    """stands for the var_type column: the first column of x is the constant, all others have type 'x'."""

    def __init__(self, mask):
        self.mask = mask

    def __eq__(self, o):
        return self.mask


class _Out:
    def __init__(self, vt):
        self.vt = vt

    def __getitem__(self, k):
        if self.vt is None or k != "var_type":
            raise KeyError(k)
        return self.vt


def reg_ols(c, fitted=True, table=True):
    """a least squares result: x = [1, xx], y, betas, predy, u and the cross products the diagnostics read."""
    n, k = c.dim("n", 12, 30), c.dim("kx", 1, 3)
    xx = c.array("xx", n, k)
    x = c.np.hstack((c.ones(n, 1), xx))
    y = c.array("y", n, 1)
    r = _R()
    r.n, r.k, r.x, r.y = n, k + 1, x, y
    r.xtx = x.T @ x
    r.xtxi = c.inv(r.xtx)
    r.betas = c.array("b", k + 1, 1) if c.symbolic else r.xtxi @ x.T @ y
    r.predy = c.array("predy", n, 1) if c.symbolic else x @ r.betas
    r.u = c.array("u", n, 1) if c.symbolic else y - r.predy
    r.utu = (r.u.T @ r.u)[0, 0]
    r.sig2n = c.scalar("s2", positive=True) if c.symbolic else r.utu / n
    vt = _VT(slice(1, None)) if c.symbolic else np.array(["o"] + ["x"] * int(k))
    r.output = _Out(vt if table else None)
    if not table:
        r._var_type = vt
    return r, xx


def ref(c, r, xx, W):
    """the ingredients of the published statistics."""
    z = _R()
    np_ = c.np
    s2 = r.sig2n
    z.T = c.tr((W + W.T) @ W)
    wxb = W @ r.predy
    z.M = lambda a, b: a.T @ b - (a.T @ r.x) @ r.xtxi @ (r.x.T @ b)
    z.D = z.M(wxb, wxb)[0, 0] / s2 + z.T
    z.ue = (r.u.T @ W @ r.u)[0, 0] / s2
    z.uy = (r.u.T @ W @ r.y)[0, 0] / s2
    z.wx, z.wxb = W @ xx, wxb
    return z


@contract("C10", ["diagnostics_sp:LMtests.__init__", "diagnostics_sp:lmErr", "diagnostics_sp:lmLag", "diagnostics_sp:rlmErr", "diagnostics_sp:rlmLag",
                  "diagnostics_sp:lmSarma", "diagnostics_sp:spDcache.j", "diagnostics_sp:spDcache.wu", "diagnostics_sp:spDcache.utwuDs",
                  "diagnostics_sp:spDcache.utwyDs", "diagnostics_sp:spDcache.t"],
          cases=[dict(kind="gen"), dict(kind="row")], draws=10)
def lm_sarerr(c, kind):
    """LM error, LM lag, their robust versions and the SARMA test."""
    r, xx = reg_ols(c)
    w = c.weights("W", r.n, kind)
    o = c.func("diagnostics_sp:LMtests")(r, w, tests=["lme", "lml", "rlme", "rlml", "sarma"])
    z = ref(c, r, xx, c.wd(w))
    lme, lml = z.ue * z.ue / z.T, z.uy * z.uy / z.D
    g = z.ue - z.T / z.D * z.uy
    rlme = g * g / (z.T * (1 - z.T / z.D))
    h = z.uy - z.ue
    rlml = h * h / (z.D - z.T)
    for nm, got, want, df in (("LM error", o.lme, lme, 1), ("LM lag", o.lml, lml, 1), ("robust LM error", o.rlme, rlme, 1),
                              ("robust LM lag", o.rlml, rlml, 1), ("SARMA", o.sarma, rlml + lme, 2)):
        c.eq(nm, got[0], want)
        c.eq(nm + " p-value", got[1], c.chi2sf(got[0], df))
    c.frame("inputs unchanged", w, r.x, r.y, r.u)


@contract("C10", ["diagnostics_sp:lm_wx", "diagnostics_sp:LMtests.__init__"], cases=[dict(table=True), dict(table=False)], draws=8)
def lm_wx(c, table):
    """LM test for WX: u'WX [(WX)'M(WX)]^-1 (WX)'u / sig2, all regressors but the constant lagged."""
    r, xx = reg_ols(c, table=table)
    w = c.weights("W", r.n, "gen")
    got = c.func("diagnostics_sp:lm_wx")(r, w)
    z = ref(c, r, xx, c.wd(w))
    s = z.wx.T @ r.u
    c.eq("LM WX", got[0], (s.T @ c.inv(z.M(z.wx, z.wx)) @ s)[0, 0] / r.sig2n)
    c.eq("p-value", got[1], c.chi2sf(got[0], r.k - 1))


@contract("C10", ["diagnostics_sp:lm_spdurbin"], cases=[dict(table=True), dict(table=False)], draws=8)
def lm_spdurbin(c, table):
    """joint LM test for rho and gamma: score' [information of (rho, gamma) given (beta, sig2)]^-1 score."""
    r, xx = reg_ols(c, table=table)
    w = c.weights("W", r.n, "gen")
    got = c.func("diagnostics_sp:lm_spdurbin")(r, w)
    W = c.wd(w)
    z = ref(c, r, xx, W)
    np_ = c.np
    s2 = r.sig2n
    d = np_.vstack((W @ r.y, )).T @ r.u / s2
    dg = z.wx.T @ r.u / s2
    a11 = z.M(z.wxb, z.wxb) + z.T * s2
    a12 = z.M(z.wxb, z.wx)
    A = np_.vstack((np_.hstack((a11, a12)), np_.hstack((a12.T, z.M(z.wx, z.wx)))))
    dd = np_.vstack((d, dg))
    c.eq("joint LM", got[0], (dd.T @ (c.inv(A) * s2) @ dd)[0, 0])
    c.eq("p-value", got[1], c.chi2sf(got[0], r.k))


@contract("C10", ["diagnostics_sp:rlm_wx", "diagnostics_sp:rlm_durlag", "diagnostics_sp:lm_slxerr"], draws=3)
def durbin_robust(c):
    """robust Durbin statistics are the differences / sums of the LM statistics with matching degrees of freedom."""
    r = _R()
    r.k = c.dim("k", 2, 5)
    a, b = c.scalar("a", 3, 9), c.scalar("b", 0.5, 2)
    g = c.func("diagnostics_sp:rlm_wx")(r, (a, 0.1), (b, 0.2))
    c.eq("robust WX", g[0], a - b)
    c.eq("robust WX p", g[1], c.chi2sf(g[0], r.k - 1))
    g = c.func("diagnostics_sp:rlm_durlag")((a, 0.1), (b, 0.2))
    c.eq("robust Durbin lag", g[0], a - b)
    c.eq("robust Durbin lag p", g[1], c.chi2sf(g[0], 1))
    g = c.func("diagnostics_sp:lm_slxerr")(r, (a, 0.1), (b, 0.2))
    c.eq("SLX error", g[0], a + b)
    c.eq("SLX error p", g[1], c.chi2sf(g[0], r.k))


@contract("C10", ["diagnostics_sp:MoranRes.__init__", "diagnostics_sp:get_mI", "diagnostics_sp:get_eI", "diagnostics_sp:get_vI", "diagnostics_sp:get_zI",
                  "diagnostics_sp:spDcache.trA", "diagnostics_sp:spDcache.AB", "diagnostics_sp:spDcache.wu"],
          cases=[dict(kind="gen"), dict(kind="row")], draws=10)
def moran(c, kind):
    """Moran's I of residuals with moments of the ratio of quadratic forms u'MWMu / u'Mu."""
    r, xx = reg_ols(c)
    w = c.weights("W", r.n, kind)
    o = c.func("diagnostics_sp:MoranRes")(r, w, z=True)
    W = c.wd(w)
    n, k, X, G = r.n, r.k, r.x, r.xtxi
    c.eq("I", o.I, n * (r.u.T @ W @ r.u)[0, 0] / (w.s0 * r.utu))
    # tr(MA) and tr(MAMB) with M = I - X G X'
    def t1(A):
        return c.tr(A) - c.tr(G @ (X.T @ A @ X))
    def t2(A, B):
        return c.tr(A @ B) - 2 * c.tr(G @ (X.T @ (A @ (B @ X)))) / 1 + c.tr(G @ (X.T @ A @ X) @ G @ (X.T @ B @ X)) if A is B else (
            c.tr(A @ B) - c.tr(G @ (X.T @ (A @ (B @ X)))) - c.tr(G @ (X.T @ (B @ (A @ X)))) + c.tr(G @ (X.T @ A @ X) @ G @ (X.T @ B @ X)))
    e = n * t1(W) / (w.s0 * (n - k))
    c.eq("E[I]", o.eI, e)
    m2 = n * n * (t2(W, W.T) + t2(W, W) + t1(W) * t1(W)) / (w.s0 * w.s0 * (n - k) * (n - k + 2))
    c.eq("Var[I]", o.vI, m2 - e * e, scale=None if c.symbolic else abs(float(m2)))
    zz = (o.I - o.eI) / c.np.sqrt(o.vI)
    c.eq("z", o.zI, zz)
    c.eq("p", o.p_norm, 2 * c.stats.norm.sf(abs(o.zI)))


@contract("C10", ["diagnostics_sp:akTest", "diagnostics_sp:AKtest.__init__"], cases=[dict(case="gen"), dict(case="nosp"), dict(case="direct")], draws=8)
def anselin_kelejian(c, case):
    """Anselin-Kelejian test: n I^2 / phi2, phi2 = [tr(W'W + WW) + 4/sig2 u'WZ varb Z'W'u] / (n (S0/n)^2)."""
    n, k = c.dim("n", 12, 30), c.dim("k", 2, 4)
    r = _R()
    r.n, r.k = n, k
    r.u, r.z = c.array("u", n, 1), c.array("z", n, k)
    B = c.array("varb", k, k, symmetric=True)
    r.varb = B if c.symbolic else B @ B.T
    r.utu = (r.u.T @ r.u)[0, 0]
    r.sig2n = c.scalar("s2", positive=True) if c.symbolic else r.utu / n
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    ue = (r.u.T @ W @ r.u)[0, 0]
    I = n * ue / (w.s0 * r.utu)
    T = c.tr((W + W.T) @ W)
    if case == "direct":
        got = c.func("diagnostics_sp:akTest")(r, w, c.func("diagnostics_sp:spDcache")(r, w))
    else:
        o = c.func("diagnostics_sp:AKtest")(r, w, case=case)
        got = (o.mi, o.ak, o.p)
    c.eq("I", got[0], I)
    if case == "nosp":
        ak = (ue / r.sig2n) * (ue / r.sig2n) / T
    else:
        a = r.u.T @ W @ r.z
        phi = (T + 4 / r.sig2n * (a @ r.varb @ a.T)[0, 0]) / (n * (w.s0 / n) * (w.s0 / n))
        ak = n * I * I / phi
    c.eq("AK", got[1], ak)
    c.eq("p", got[2], c.chi2sf(got[1], 1))
    c.frame("inputs unchanged", w, r.u, r.z, B)


@contract("C10", ["diagnostics_sp:comfac_test"], cases=[dict(k=k) for k in (1, 2, 3)], draws=5)
def common_factor(c, k):
    """common factor hypothesis: Wald test of rho*beta + gamma = 0 with the delta-method covariance."""
    rho = c.scalar("rho", -0.8, 0.8)
    b, g = c.array("beta", k, 1, style="plain"), c.array("gamma", k, 1, style="plain")
    V = c.array("V", 2 * k + 1, 2 * k + 1, symmetric=True, style="plain")
    if not c.symbolic:
        V = V @ V.T + 0.1 * np.eye(2 * k + 1)
    got = c.func("diagnostics_sp:comfac_test")(rho, b, g, V)
    h = rho * b + g
    # derivative of h with respect to (beta, gamma, rho)
    J = c.np.hstack((rho * c.np.eye(k), c.np.eye(k), b))
    c.eq("Wald", got[0], (h.T @ c.inv(J @ V @ J.T) @ h)[0, 0])
    c.eq("p", got[1], c.chi2sf(got[0], k))


# ------------------------------------------------------------------ public classes (concrete)
def lm_all(c, y, X, W, xcols):
    """published LM statistics from scratch."""
    n, k = X.shape
    G = np.linalg.inv(X.T @ X)
    M = np.eye(n) - X @ G @ X.T
    b = G @ X.T @ y
    u = y - X @ b
    s2 = float((u.T @ u).item()) / n
    T = float(np.trace(W.T @ W + W @ W))
    wxb = W @ X @ b
    D = float((wxb.T @ M @ wxb).item()) / s2 + T
    ue, uy = float((u.T @ W @ u).item()) / s2, float((u.T @ W @ y).item()) / s2
    o = dict(lme=ue ** 2 / T, lml=uy ** 2 / D, rlme=(ue - T / D * uy) ** 2 / (T * (1 - T / D)), rlml=(uy - ue) ** 2 / (D - T))
    o["sarma"] = o["lml"] + o["rlme"]                      # = LM error + robust LM lag
    WX = W @ X[:, xcols]
    o["lmwx"] = float(((WX.T @ u).T @ np.linalg.inv(WX.T @ M @ WX) @ (WX.T @ u)).item()) / s2
    Z = np.hstack([wxb, WX])
    A = Z.T @ M @ Z
    A[0, 0] += T * s2
    d = np.vstack([u.T @ W @ y, WX.T @ u])
    o["lmspdurbin"] = float((d.T @ np.linalg.inv(A) @ d).item()) / s2
    S0 = W.sum()
    MW = M @ W
    I = n / S0 * float((u.T @ W @ u).item()) / float((u.T @ u).item())
    e = n / S0 * np.trace(MW) / (n - k)
    v = (n / S0) ** 2 * (np.trace(MW @ M @ W.T) + np.trace(MW @ MW) + np.trace(MW) ** 2) / ((n - k) * (n - k + 2)) - e ** 2
    o["moran"] = (I, e, v)
    return o


@contract("C10", ["output:_spat_diag_out", "diagnostics_sp:LMtests.__init__", "diagnostics_sp:MoranRes.__init__", "ols:OLS.__init__"],
          cases=[dict(slx=s, kind=k) for s, k in ((0, "row"), (0, "gen"), (1, "row"), (0, "binary"))], sym=False, draws=6,
          bounded="random data n<=60")
def ols_class(c, slx, kind):
    d = K.spdata(c, k=zoo.pick(c, 1, 2, 3), wkind=kind)
    X, lab = K.design(c, d.x, d.nx, d.w, slx)
    c.assume(K.well(X))
    with zoo.quiet():
        o = c.func("ols:OLS")(w=d.w, slx_lags=slx, spat_diag=True, moran=True, **K.call_args(c, d))
    n, k = X.shape
    xc = list(range(1, d.k + 1))
    s = lm_all(c, d.y, X, d.W, xc)
    sf = c.stats.chi2.sf
    want = dict(lm_error=("lme", 1), lm_lag=("lml", 1), rlm_error=("rlme", 1), rlm_lag=("rlml", 1), lm_sarma=("sarma", 2))
    if slx == 0:
        s["rlmwx"], s["rlmdurlag"], s["lmslxerr"] = s["lmspdurbin"] - s["lml"], s["lmspdurbin"] - s["lmwx"], s["lme"] + s["lmwx"]
        want.update(lm_wx=("lmwx", k - 1), lm_spdurbin=("lmspdurbin", k), rlm_wx=("rlmwx", k - 1), rlm_durlag=("rlmdurlag", 1), lm_slxerr=("lmslxerr", k))
    for a, (q, df) in want.items():
        got = getattr(o, a)
        c.eq(a, got[0], s[q], tol=1e-6, scale=1 + abs(s[q]))
        c.eq(a + " p-value", got[1], sf(float(got[0]), df))
    I, e, v = s["moran"]
    c.eq("Moran I", o.moran_res[0], I)
    c.eq("Moran z", o.moran_res[1], (I - e) / np.sqrt(v), tol=1e-5)
    c.eq("Moran p", o.moran_res[2], 2 * c.stats.norm.sf(abs((I - e) / np.sqrt(v))), tol=1e-5)
    c.true("printed", ("%-27s      %2d   %12.3f        %9.4f" % ("Lagrange Multiplier (error)", 1, o.lm_error[0], o.lm_error[1])) in o.summary)
    # every test requested one at a time, and all at once, on the finished object
    L = c.func("diagnostics_sp:LMtests")
    if slx == 0:
        allt = L(o, d.w)
        for t, q in (("lme", "lme"), ("lml", "lml"), ("rlme", "rlme"), ("rlml", "rlml"), ("sarma", "sarma"), ("lmwx", "lmwx"), ("lmspdurbin", "lmspdurbin"),
                     ("rlmwx", "rlmwx"), ("rlmdurlag", "rlmdurlag"), ("lmslxerr", "lmslxerr")):
            one = L(o, d.w, tests=[t])
            c.eq("LMtests %s" % t, getattr(one, t)[0], s[q], tol=1e-6, scale=1 + abs(s[q]))
            c.eq("LMtests all %s" % t, getattr(allt, t)[0], s[q], tol=1e-6, scale=1 + abs(s[q]))
    c.frame_all("inputs unchanged")


@contract("C10", ["output:_spat_diag_out", "diagnostics_sp:akTest", "diagnostics_sp:comfac_test", "twosls:TSLS.__init__", "twosls_sp:GM_Lag.__init__"],
          cases=[dict(model=m, slx=s) for m, s in (("TSLS", 0), ("GM_Lag", 0), ("GM_Lag_yend", 0), ("GM_Lag", 1), ("ML_Lag", 1), ("GM_Lag_yend", 1), ("TSLS", 1))],
          sym=False, draws=6, bounded="random data n<=60")
def iv_class(c, model, slx):
    kind = zoo.pick(c, "row", "gen") if model == "TSLS" else "row"
    d = K.spdata(c, k=zoo.pick(c, 1, 2), endog=1 if model in ("TSLS", "GM_Lag_yend") else 0, wkind=kind)
    kw = K.call_args(c, d)
    X, lab = K.design(c, d.x, d.nx, d.w, slx)
    c.assume(K.well(X))
    if model.startswith("GM_Lag"):
        kw.update(robust=None, w_lags=2, sig2n_k=False)
    try:
        with zoo.quiet():
            o = c.func({"TSLS": "twosls:TSLS", "ML_Lag": "ml_lag:ML_Lag"}.get(model, "twosls_sp:GM_Lag"))(w=d.w, slx_lags=slx, spat_diag=True, **kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    n = d.n
    if model != "ML_Lag":
        u, W = o.u, d.W
        ue = float((u.T @ W @ u).item())
        s2 = float((u.T @ u).item()) / n
        I = n / W.sum() * ue / (n * s2)
        a = u.T @ W @ o.z
        Zp = o.z.T @ o.h @ np.linalg.inv(o.h.T @ o.h) @ o.h.T @ o.z
        phi = (np.trace(W.T @ W + W @ W) + 4 / s2 * float((a @ np.linalg.inv(Zp) @ a.T).item())) / (n * (W.sum() / n) ** 2)
        c.eq("AK", o.ak_test[0], n * I ** 2 / phi, tol=1e-5)
        c.eq("AK p", o.ak_test[1], c.stats.chi2.sf(float(o.ak_test[0]), 1))
    if slx == 1 and model in ("GM_Lag", "ML_Lag"):
        k = d.k
        b = np.asarray(o.betas).ravel()
        be, ga, rho = b[1:k + 1], b[k + 1:2 * k + 1], float(np.asarray(o.rho).ravel()[0])
        ix = list(range(1, 2 * k + 1)) + [2 * k + 1]
        V = np.asarray(o.vm)[np.ix_(ix, ix)]
        J = np.hstack([rho * np.eye(k), np.eye(k), be[:, None]])
        h = rho * be + ga
        Wd = float(h @ np.linalg.inv(J @ V @ J.T) @ h)
        c.eq("common factor", o.cfh_test[0], Wd, tol=1e-5)
        c.eq("common factor p", o.cfh_test[1], c.stats.chi2.sf(float(o.cfh_test[0]), k))
    c.frame_all("inputs unchanged")


@contract("C10", ["output:_spat_diag_out", "ols_regimes:OLS_Regimes.__init__"], sym=False, draws=8, bounded="random data n<=80, common error variance or separate")
def regimes_class(c):
    """a regimes model's spatial tests are those of its regime-by-column design (its own residuals; sig2 = u'u/n)."""
    n = c.dim("n", 50, 80)
    d = K.spdata(c, n=n, k=zoo.pick(c, 1, 2), wkind="row")
    nr = zoo.pick(c, 2, 3)
    R = zoo.regimes_of(c, n, nr)
    w = zoo.regime_w(c, n, R)
    sep, one = zoo.flip(c), zoo.flip(c)
    kw = dict(constant_regi="one" if one else "many", cols2regi=[True] + [zoo.flip(c) for _ in range(d.k - 1)])
    with zoo.quiet():
        o = c.func("ols_regimes:OLS_Regimes")(d.y, d.x, R, w=w, spat_diag=True, moran=True, regime_err_sep=sep, name_y="dep", name_x=list(d.nx), **kw)
    RR = np.array([str(v) for v in R])
    ind = [(RR == v).astype(float)[:, None] for v in sorted(set(RR), key=list(RR).index)]
    cols = [np.ones((n, 1))] if one else list(ind)
    for j in range(d.k):
        cols += [d.x[:, [j]] * f for f in ind] if kw["cols2regi"][j] else [d.x[:, [j]]]
    X = np.hstack(cols)
    s = lm_all(c, d.y, X, c.wd(w), [1])
    # group-wise heteroskedastic fits have their own contract below
    c.assume(not sep or hasattr(o, "multi"))
    if True:
        for a, q in (("lm_error", "lme"), ("lm_lag", "lml"), ("rlm_error", "rlme"), ("rlm_lag", "rlml"), ("lm_sarma", "sarma")):
            c.eq(a, getattr(o, a)[0], s[q], tol=1e-6, scale=1 + abs(s[q]))
            c.eq(a + " p-value", getattr(o, a)[1], c.stats.chi2.sf(float(getattr(o, a)[0]), 2 if q == "sarma" else 1))
        I, e, v = s["moran"]
        c.eq("Moran I", o.moran_res[0], I)
        c.eq("Moran z", o.moran_res[1], (I - e) / np.sqrt(v), tol=1e-5)
    c.frame_all("inputs unchanged")


@contract("C10", ["output:_spat_diag_out", "ols_regimes:OLS_Regimes.__init__"], sym=False, draws=3, bounded="random data n<=60")
def regimes_groupwise(c):
    """group-wise heteroskedastic fit (one shared constant): LM error uses the reported residuals and their own variance u'u/n."""
    n = c.dim("n", 50, 60)
    d = K.spdata(c, n=n, k=1, wkind="row")
    R = zoo.regimes_of(c, n, 2)
    w = zoo.regime_w(c, n, R)
    with zoo.quiet():
        o = c.func("ols_regimes:OLS_Regimes")(d.y, d.x, R, w=w, spat_diag=True, regime_err_sep=True, constant_regi="one", name_y="dep", name_x=list(d.nx))
    W, u = c.wd(w), np.asarray(o.u)
    s2 = float((u.T @ u).item()) / n
    ue = float((u.T @ W @ u).item()) / s2
    t = ue ** 2 / float(np.trace(W.T @ W + W @ W))
    c.eq("lm_error from the reported residuals", o.lm_error[0], t, tol=1e-6, scale=1 + t)


@contract("C10", ["output:_spat_diag_out", "output:_probit_out"], cases=[dict(kind=k) for k in ("OLS", "TSLS", "GM_Lag", "ML_Lag", "Probit", "OLS_Regimes", "GM_Lag_Regimes")],
          sym=False, draws=4, bounded="random data n<=80, printed digits")
def printed(c, kind):
    """the summary prints every spatial diagnostic under its own name, with its degrees of freedom, value and p-value."""
    name, d, kw = zoo.cross_args(c, kind)
    kw.update(spat_diag=True, w=d.w, slx_lags=1 if kind in ("GM_Lag", "ML_Lag") else 0)
    if kw.get("robust") == "hac":
        kw.update(robust=None, gwk=None)
    if kind == "OLS":
        kw["moran"] = True
    if kind.endswith("Regimes"):
        kw.update(regime_err_sep=True, constant_regi="many", cols2regi="all")
        kw["moran" if kind == "OLS_Regimes" else "regime_lag_sep"] = True
    o = zoo.build(c, name, kw)
    if kind == "OLS_Regimes":                  # tests of the whole sample
        parts = [(o, o.summary.partition("GLOBAL DIAGNOSTICS")[2])]
    else:
        parts = K.sections(c, o)
    for m, text in parts:
        P = lambda t, *v: K.printed(c, text, t, *v)
        if "OLS" in kind:
            P("Moran's I (error)", *m.moran_res)
            P("Lagrange Multiplier (lag)", 1, *m.lm_lag)
            P("Robust LM (lag)", 1, *m.rlm_lag)
            P("Lagrange Multiplier (error)", 1, *m.lm_error)
            P("Robust LM (error)", 1, *m.rlm_error)
            P("Lagrange Multiplier (SARMA)", 2, *m.lm_sarma)
        if kind == "OLS":
            P("LM test for WX", m.k - 1, *m.lm_wx)
            P("Robust LM WX test", m.k - 1, *m.rlm_wx)
            P("Robust LM Lag - SDM", 1, *m.rlm_durlag)
            P("Joint test for SDM", m.k, *m.lm_spdurbin)
        elif kind in ("TSLS", "GM_Lag", "GM_Lag_Regimes"):
            P("Anselin-Kelejian Test", 1, *m.ak_test)
        elif kind == "Probit":
            P("Kelejian-Prucha (error)", 1, *m.KP_error)
            P("Pinkse (error)", 1, *m.Pinkse_error)
            P("Pinkse-Slade (error)", 1, *m.PS_error)
        if kind in ("GM_Lag", "ML_Lag") and getattr(o, "yend", None) is None or kind == "GM_Lag" and o.yend.shape[1] == 1:
            P("Common Factor Hypothesis Test", d.k, *m.cfh_test)
