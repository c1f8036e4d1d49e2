"""C11: non-spatial diagnostics equal their published statistics."""
import numpy as np

from ..engine import contract
from . import common as K
from . import zoo

D = "diagnostics:"


class _R:
    pass


def fit(c, k=None, const=True, vm=True):
    """a regression result: arbitrary y, betas, residuals and predicted values (the tests are formulas over any of them)."""
    n = c.dim("n", 12, 40)
    if k is None:
        k = c.dim("k", 2, 5)
    c.assume(n > k + 2)
    r = _R()
    r.n, r.k = n, k
    r.y, r.u, r.predy = c.array("y", n, 1), c.array("u", n, 1), c.array("predy", n, 1)
    r.betas = c.array("b", k, 1, style="plain")
    r.utu = (r.u.T @ r.u)[0, 0]
    r.mean_y = r.y.sum() / n
    r.sig2n = r.utu / n
    return r


def m(x, r):
    return x.sum() / r.n


@contract("C11", [D + "f_stat", D + "r2", D + "ar2", D + "log_likelihood", D + "akaike", D + "schwarz", D + "jarque_bera", D + "se_betas"],
          draws=10)
def fit_measures(c):
    r = fit(c)
    n, k, np_ = r.n, r.k, c.np
    f = c.func(D + "f_stat")(r)
    U = ((r.predy - r.mean_y) ** 2).sum()
    c.eq("F", f[0], (U / (k - 1)) / (r.utu / (n - k)))
    c.eq("F p", f[1], c.stats.f.sf(f[0], k - 1, n - k))
    tss = ((r.y - r.mean_y) ** 2).sum()
    r2 = 1 - r.utu / tss
    c.eq("R2", c.func(D + "r2")(r), r2)
    c.eq("adjusted R2", c.func(D + "ar2")(r), 1 - (1 - r2) * (n - 1) / (n - k))
    ll = -0.5 * n * (np_.log(2 * np_.pi) + np_.log(r.utu / n) + 1)
    c.eq("log likelihood", c.func(D + "log_likelihood")(r), ll)
    c.eq("AIC from residuals", c.func(D + "akaike")(r), 2 * k + n * (np_.log(2 * np_.pi * r.utu / n) + 1))
    c.eq("SC from residuals", c.func(D + "schwarz")(r), k * np_.log(n) + n * (np_.log(2 * np_.pi * r.utu / n) + 1))
    r.logll = c.scalar("ll", -90, -10)
    c.eq("AIC", c.func(D + "akaike")(r), 2 * k - 2 * r.logll)
    c.eq("SC", c.func(D + "schwarz")(r), k * np_.log(n) - 2 * r.logll)
    V = c.array("V", k, k, symmetric=True)
    r.vm = V if c.symbolic else V @ V.T
    se = c.func(D + "se_betas")(r)
    c.eq("standard errors", se * se, r.vm.diagonal())
    jb = c.func(D + "jarque_bera")(r)
    m2, m3, m4 = m(r.u ** 2, r), m(r.u ** 3, r), m(r.u ** 4, r)
    c.eq("Jarque-Bera", jb["jb"], n * (m3 * m3 / (m2 * m2 * m2) / 6 + (m4 / (m2 * m2) - 3) ** 2 / 24))
    c.eq("Jarque-Bera p", jb["pvalue"], c.chi2sf(jb["jb"], 2))
    c.same("Jarque-Bera df", jb["df"], 2)
    c.frame("inputs unchanged", r.u, r.y, r.predy)


@contract("C11", [D + "likratiotest"], draws=10)
def likelihood_ratio(c):
    a, b = _R(), _R()
    a.logll, b.logll = c.scalar("l0", -90, -10), c.scalar("l1", -90, -10)
    a.k, b.k = (3, 5) if c.symbolic else (zoo.pick(c, 2, 3, 4), zoo.pick(c, 2, 3, 4, 5, 6))
    o = c.func(D + "likratiotest")(a, b)
    d = b.logll - a.logll
    c.eq("LR squared", o["likr"] * o["likr"], 4 * d * d)
    c.ge0("LR is not negative", o["likr"])
    df = b.k - a.k if b.k > a.k else 1
    c.same("df", o["df"], df)
    c.eq("p", o["p-value"], c.chi2sf(o["likr"], df))


def columns(c, n, k, ones=True):
    cs = [c.array("x%d" % j, n, 1) for j in range(k)]
    return ([c.ones(n, 1)] if ones else []) + cs


def distinct(c, cols):
    for i in range(len(cols)):
        for j in range(i + 1, len(cols)):
            c.assume(abs(cols[i][:, 0] - cols[j][:, 0]).sum() != 0)


@contract("C11", [D + "breusch_pagan", D + "koenker_bassett", "sputils:spmultiply"], cases=[dict(k=k, z=z) for z in (False, True) for k in (1, 2, 3)], draws=6)
def heteroskedasticity(c, k, z):
    """BP and KB: (half) explained sum of squares of the scaled squared residuals on the squared regressors (or on the z given), df = columns - 1."""
    r = fit(c, k + 1)
    xs = columns(c, r.n, k)
    sq = xs if z else [x * x for x in xs]
    if c.symbolic:
        distinct(c, sq)
    r.x = c.ones(r.n, 2) if z else c.np.hstack(xs)
    Z = c.np.hstack(sq)
    zz = dict(z=c.np.hstack(xs)) if z else {}
    s = r.utu / r.n
    g = r.u * r.u / s - 1
    bp = c.func(D + "breusch_pagan")(r, **zz)
    c.eq("BP", bp["bp"], 0.5 * (g.T @ Z @ c.inv(Z.T @ Z) @ (Z.T @ g))[0, 0])
    c.same("BP df", bp["df"], k)
    c.eq("BP p", bp["pvalue"], c.chi2sf(bp["bp"], k))
    kb = c.func(D + "koenker_bassett")(r, **zz)
    e = r.u * r.u - s
    v = (e * e).sum() / r.n
    c.eq("KB", kb["kb"], (e.T @ Z @ c.inv(Z.T @ Z) @ (Z.T @ e))[0, 0] / v)
    c.same("KB df", kb["df"], k)
    c.eq("KB p", kb["pvalue"], c.chi2sf(kb["kb"], k))
    c.frame("inputs unchanged", r.u, *xs)


@contract("C11", [D + "breusch_pagan", D + "koenker_bassett"], sym=False, draws=8, bounded="concrete dummies")
def heteroskedasticity_dups(c):
    """a regressor whose square repeats another (e.g. -1/1 coded) is used once, and df counts distinct columns."""
    n = c.dim("n", 15, 40)
    r = _R()
    r.n = n
    a, b = c.array("a", n, 1), c.array("b", n, 1)
    sgn = np.where(c.rng.rand(n, 1) < 0.5, -1.0, 1.0)
    r.x = np.hstack([np.ones((n, 1)), a, sgn, b, -a][: zoo.pick(c, 3, 4, 5)])
    r.k = r.x.shape[1]
    r.u = c.array("u", n, 1)
    r.utu = (r.u.T @ r.u).item()
    Z = np.unique(r.x ** 2, axis=1)
    g = r.u ** 2 / (r.utu / n) - 1
    P = Z @ np.linalg.pinv(Z.T @ Z) @ Z.T
    bp = c.func(D + "breusch_pagan")(r)
    c.eq("BP", bp["bp"], 0.5 * float((g.T @ P @ g).item()))
    c.same("df", bp["df"], Z.shape[1] - 1)
    kb = c.func(D + "koenker_bassett")(r)
    e = r.u ** 2 - r.utu / n
    c.eq("KB", kb["kb"], float((e.T @ P @ e).item()) / float(np.mean(e ** 2)))
    c.same("KB df", kb["df"], Z.shape[1] - 1)


@contract("C11", [D + "condition_index"], cases=[dict(att="xtx"), dict(att="hth")], draws=8)
def condition_index(c, att):
    """ratio of the largest to smallest singular value of the columns scaled to unit length."""
    n, k = c.dim("n", 12, 40), c.dim("k", 2, 4)
    x = c.array("x", n, k)
    r = _R()
    M = x.T @ x
    setattr(r, att, M)
    ci = c.func(D + "condition_index")(r)
    if c.symbolic:
        e = c.np.linalg.eigvals(M / c.np.diagonal(M))
        c.eq("condition index squared", ci * ci, c.np.max(e) / c.np.min(e))
    else:
        s = np.linalg.svd(x / np.sqrt((x ** 2).sum(0)), compute_uv=False)
        c.eq("condition index", ci, s[0] / s[-1], tol=1e-6)


@contract("C11", [D + "white", D + "r2", "ols:BaseOLS.__init__", "sputils:sphstack", "sputils:spmultiply", "sputils:spmax", "sputils:spmin"],
          cases=[dict(k=1), dict(k=2)], draws=6)
def white_test(c, k):
    """n R2 of the squared residuals on constant, regressors, squares and cross products; df = auxiliary regressors - 1."""
    n = c.dim("n", 25, 60)
    xs = columns(c, n, k)
    r = _R()
    r.n, r.k, r.u, r.x = n, k + 1, c.array("u", n, 1), c.np.hstack(xs)
    r.y = c.array("y", n, 1)
    r.xtx = r.x.T @ r.x
    aux = list(xs[1:])
    for i in range(1, k + 1):
        aux += [xs[i] * xs[j] for j in range(i, k + 1)]
    if c.symbolic:
        distinct(c, [xs[0]] + aux)
        c.stub(D + "condition_index", lambda reg: 1)
        for a in aux:
            c.assume(c.np.max(a[:, 0]) != c.np.min(a[:, 0]))
    Z = c.np.hstack([xs[0]] + aux)
    o = c.func(D + "white")(r)
    if not c.symbolic and isinstance(o, str):
        s = np.linalg.svd(r.x / np.sqrt((r.x ** 2).sum(0)), compute_uv=False)
        c.true("refused only when ill-conditioned", s[0] / s[-1] > 30 * (1 - 1e-9))
        return
    e = r.u * r.u
    res = e - Z @ c.inv(Z.T @ Z) @ (Z.T @ e)
    tss = ((e - e.sum() / n) ** 2).sum()
    c.eq("White", o["wh"], n * (1 - (res.T @ res)[0, 0] / tss))
    df = k + k * (k + 1) // 2
    c.same("df", o["df"], df)
    c.eq("p", o["pvalue"], c.chi2sf(o["wh"], df))
    c.frame("inputs unchanged", r.u, *xs)


@contract("C11", [D + "vif", "ols:BaseOLS.__init__"], cases=[dict(k=1), dict(k=2), dict(k=3)], draws=6)
def vif(c, k):
    """VIF_j = 1 / (1 - R2 of column j on all the others)."""
    n = c.dim("n", 15, 40)
    xs = columns(c, n, k)
    r = _R()
    r.x = c.np.hstack(xs)
    if c.symbolic:
        for x in xs[1:]:
            c.assume(((x - x.sum() / n) ** 2).sum() != 0)
    o = c.func(D + "vif")(r)
    c.same("one entry per column", len(o), k + 1)
    for j in range(1, k + 1):
        y = xs[j]
        Z = c.np.hstack(xs[:j] + xs[j + 1:])
        e = y - Z @ c.inv(Z.T @ Z) @ (Z.T @ y)
        tss = ((y - y.sum() / n) ** 2).sum()
        ee = (e.T @ e)[0, 0]
        c.eq("tolerance of column %d" % j, o[j][1], ee / tss)
        c.eq("VIF of column %d" % j, o[j][0], tss / ee)
    c.frame("inputs unchanged", r.x)


@contract("C11", [D + "dwh", D + "f_stat", "ols:BaseOLS.__init__", "sputils:sphstack"], cases=[dict(ny=1), dict(ny=2)], draws=6)
def durbin_wu_hausman(c, ny):
    """F test of adding the instrument-predicted endogenous variables to the structural equation."""
    n, k, q = c.dim("n", 25, 50), c.dim("k", 2, 3), c.dim("l", 2, 3)
    r = _R()
    X = c.array("x", n, k)
    ye = [c.array("ye%d" % i, n, 1) for i in range(ny)]
    Q = c.array("q", n, q)
    r.n, r.y = n, c.array("y", n, 1)
    r.yend = c.np.hstack(ye)
    if c.symbolic:
        r.h, r.z = c.array("h", n, q), c.array("z", n, k)
        Z = r.z
    else:
        r.h, r.z = np.hstack([X, Q]), np.hstack([X, r.yend])
        Z = r.z
    o = c.func(D + "dwh")(r)
    py = c.np.hstack([r.h @ c.inv(r.h.T @ r.h) @ (r.h.T @ y) for y in ye])
    Z1 = c.np.hstack((Z, py))

    def rss(A):
        e = r.y - A @ (c.inv(A.T @ A) @ (A.T @ r.y))
        return (e.T @ e)[0, 0]

    r0, r1 = rss(Z), rss(Z1)
    df2 = n - Z.shape[1] - ny
    c.eq("F", o[0], ((r0 - r1) / ny) / (r1 / df2), tol=1e-6, scale=None if c.symbolic else 1 + abs(float(np.asarray(o[0]).ravel()[0])))
    c.eq("p", o[1], c.stats.f.sf(o[0], ny, df2))
    c.frame("inputs unchanged", r.y, r.h, r.z)


@contract("C11", ["diagnostics_tsls:pr2_aspatial", "diagnostics_tsls:pr2_spatial"], sym=False, draws=8, bounded="random vectors")
def pseudo_r2(c):
    n = c.dim("n", 5, 40)
    r = _R()
    r.y, r.predy, r.predy_e = c.array("y", n, 1), c.array("p", n, 1), c.array("e", n, 1)
    for f, p in (("pr2_aspatial", r.predy), ("pr2_spatial", r.predy_e)):
        c.eq(f, c.func("diagnostics_tsls:" + f)(r), np.corrcoef(r.y.ravel(), p.ravel())[0, 1] ** 2)


@contract("C11", [D + "constant_check"], sym=False, draws=12, bounded="random arrays")
def constant_check(c):
    """true exactly when some column has a single value, wherever it stands."""
    n, k = c.dim("n", 3, 20), c.dim("k", 1, 4)
    x = c.array("x", n, k)
    has = zoo.flip(c)
    if has:
        x[:, zoo.pick(c, *range(int(k)))] = float(zoo.pick(c, -2, -1, 0, 1, 2))
    c.same("constant", bool(c.func(D + "constant_check")(x)), has)


def spec_ols(c, y, X):
    n, k = X.shape
    b, *_ = np.linalg.lstsq(X, y, rcond=None)
    u = (y - X @ b)
    u2, s = u ** 2, float((u ** 2).mean())
    o = {}
    tss = float(((y - y.mean()) ** 2).sum())
    rss = float((u ** 2).sum())
    o["r2"] = 1 - rss / tss
    o["ar2"] = 1 - (1 - o["r2"]) * (n - 1) / (n - k)
    o["f"] = ((tss - rss) / (k - 1)) / (rss / (n - k))
    o["ll"] = -n / 2 * (np.log(2 * np.pi * s) + 1)
    o["aic"], o["sc"] = 2 * k - 2 * o["ll"], k * np.log(n) - 2 * o["ll"]
    sv = np.linalg.svd(X / np.sqrt((X ** 2).sum(0)), compute_uv=False)
    o["mulColli"] = sv[0] / sv[-1]
    m3, m4 = float((u ** 3).mean()), float((u ** 4).mean())
    o["jb"] = n * ((m3 / s ** 1.5) ** 2 / 6 + (m4 / s ** 2 - 3) ** 2 / 24)
    def ess(e, Z):
        b, *_ = np.linalg.lstsq(Z, e, rcond=None)
        return float((e * (Z @ b)).sum())
    Z = np.unique(np.round(X ** 2, 14), axis=1)
    o["bp"] = 0.5 * ess(u2 / s - 1, X ** 2)
    o["kb"] = ess(u2 - s, X ** 2) / float(((u2 - s) ** 2).mean())
    o["bpdf"] = Z.shape[1] - 1
    A = np.hstack([X] + [X[:, [i]] * X[:, [j]] for i in range(k) for j in range(i, k)])
    dev = u2 - u2.mean()
    A1 = np.hstack([np.ones((n, 1)), A])
    b, *_ = np.linalg.lstsq(A1, u2, rcond=None)
    o["wh"] = n * (1 - float(((u2 - A1 @ b) ** 2).sum()) / float((dev ** 2).sum()))
    cs = {tuple(np.round(A[:, j], 12)) for j in range(A.shape[1]) if A[:, j].max() != A[:, j].min()}
    o["whdf"] = len(cs)
    o["aux"] = A1
    return o


def ols_checks(c, o, s, tag=""):
    chi = c.stats.chi2.sf
    c.eq(tag + "r2", o.r2, s["r2"])
    c.eq(tag + "ar2", o.ar2, s["ar2"])
    c.eq(tag + "f", o.f_stat[0], s["f"])
    c.eq(tag + "logll", o.logll, s["ll"])
    c.eq(tag + "aic", o.aic, s["aic"])
    c.eq(tag + "schwarz", o.schwarz, s["sc"])
    c.eq(tag + "condition index", o.mulColli, s["mulColli"], tol=1e-6)
    c.eq(tag + "jb", o.jarque_bera["jb"], s["jb"])
    c.eq(tag + "jb p", o.jarque_bera["pvalue"], chi(s["jb"], 2))
    c.eq(tag + "bp", o.breusch_pagan["bp"], s["bp"], tol=1e-6)
    c.eq(tag + "bp p", o.breusch_pagan["pvalue"], chi(s["bp"], s["bpdf"]), tol=1e-6)
    c.eq(tag + "kb", o.koenker_bassett["kb"], s["kb"], tol=1e-6)
    c.eq(tag + "kb p", o.koenker_bassett["pvalue"], chi(s["kb"], s["bpdf"]), tol=1e-6)


@contract("C11", ["ols:OLS.__init__", "output:_nonspat_top", "output:_nonspat_mid", "output:_summary_vif"], sym=False, draws=12,
          bounded="random data n<=70, with dummies")
def ols_class(c):
    """OLS: every reported diagnostic, and their invariance under reordering rows and rescaling y and the regressors."""
    d = K.spdata(c, n=c.dim("n", 35, 70), k=zoo.pick(c, 1, 2, 3), wkind="row")
    if zoo.flip(c):
        d.x = d.x.copy()
        d.x[:, 0] = (c.rng.rand(d.n) < 0.4).astype(float)
    X = np.hstack([np.ones((d.n, 1)), d.x])
    c.assume(np.linalg.cond(X) < 200)
    s = spec_ols(c, d.y, X)
    # the auxiliary regression of White's test must have full rank once constants and duplicates are dropped
    c.assume(np.linalg.matrix_rank(s["aux"]) == s["whdf"] + 1)
    kw = K.call_args(c, d)
    F = c.func("ols:OLS")
    with zoo.quiet():
        o = F(nonspat_diag=True, white_test=True, vif=True, **kw)
    ols_checks(c, o, s)
    c.eq("f p", o.f_stat[1], c.stats.f.sf(s["f"], X.shape[1] - 1, d.n - X.shape[1]))
    if s["mulColli"] < 29:
        c.eq("white", o.white["wh"], s["wh"], tol=1e-5, scale=1 + s["wh"])
        c.same("white df", int(o.white["df"]), s["whdf"])
        c.eq("white p", o.white["pvalue"], c.stats.chi2.sf(float(o.white["wh"]), s["whdf"]))
    for j in range(1, X.shape[1]):
        Z = np.delete(X, j, 1)
        b, *_ = np.linalg.lstsq(Z, X[:, [j]], rcond=None)
        e = X[:, [j]] - Z @ b
        t = float((e ** 2).sum() / ((X[:, j] - X[:, j].mean()) ** 2).sum())
        c.true("vif %d is printed" % j, ("%20s    %12.4f   %12.4f\n" % (o.name_x[j], 1 / t, t)) in o.summary)
    p = c.rng.permutation(d.n)
    with zoo.quiet():
        o2 = F(np.asarray(d.y)[p] * 3.0, d.x[p] * 2.0 ** np.arange(1, d.k + 1), nonspat_diag=True)
    for a, q in (("r2", None), ("f_stat", 0), ("jarque_bera", "jb"), ("koenker_bassett", "kb"), ("breusch_pagan", "bp")):
        g = lambda z: getattr(z, a) if q is None else getattr(z, a)[q]
        if a in ("r2", "f_stat", "jarque_bera", "koenker_bassett", "breusch_pagan"):
            c.eq("%s is invariant to row order and units" % a, g(o2), g(o), tol=1e-6, scale=1 + abs(float(np.asarray(g(o)).ravel()[0])))
    c.frame_all("inputs unchanged")


@contract("C11", ["ols_regimes:OLS_Regimes.__init__", "output:_nonspat_mid"], sym=False, draws=6, bounded="random data n<=90")
def ols_regimes_class(c):
    """regimes: the diagnostics of each separately estimated regime are those of its own data."""
    n = c.dim("n", 60, 90)
    d = K.spdata(c, n=n, k=zoo.pick(c, 1, 2), wkind="row")
    R = zoo.regimes_of(c, n, 2)
    specs = {}
    for r in set(R):
        ix = [i for i in range(n) if R[i] == r]
        s = specs[str(r)] = spec_ols(c, d.y[ix], np.hstack([np.ones((len(ix), 1)), d.x[ix]]))
        c.assume(np.linalg.matrix_rank(s["aux"]) == s["whdf"] + 1)
    with zoo.quiet():
        o = c.func("ols_regimes:OLS_Regimes")(d.y, d.x, R, regime_err_sep=True, nonspat_diag=True, white_test=True)
    for r in o.multi:
        ix = [i for i in range(n) if str(R[i]) == str(r)]
        X = np.hstack([np.ones((len(ix), 1)), d.x[ix]])
        s = specs[str(r)]
        ols_checks(c, o.multi[r], s, "regime %s: " % list(o.multi).index(r))
    c.frame_all("inputs unchanged")


@contract("C11", ["twosls:TSLS.__init__", "output:_summary_dwh", "twosls_sp:GM_Lag.__init__", "ml_lag:ML_Lag.__init__", "output:_spat_pseudo_r2"],
          cases=[dict(model=m) for m in ("TSLS", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error_Het")], sym=False, draws=4, bounded="random data n<=60")
def other_classes(c, model):
    """pseudo R2 (squared correlations), information criteria and the DWH test of the other models."""
    d = K.spdata(c, k=zoo.pick(c, 1, 2), endog=1 if model == "TSLS" else 0, wkind="row")
    kw = K.call_args(c, d)
    mod = {"TSLS": "twosls", "GM_Lag": "twosls_sp", "ML_Lag": "ml_lag", "ML_Error": "ml_error", "GM_Error_Het": "error_sp_het"}[model]
    if model == "TSLS":
        kw.update(nonspat_diag=True, w=None)
    else:
        kw["w"] = d.w
    with zoo.quiet():
        o = c.func(mod + ":" + model)(**kw)
    cor = lambda a, b: np.corrcoef(np.asarray(a).ravel(), np.asarray(b).ravel())[0, 1] ** 2
    c.eq("pr2", o.pr2, cor(d.y, o.predy))
    if hasattr(o, "pr2_e") and hasattr(o, "predy_e") and model != "ML_Error":
        c.eq("pr2_e", o.pr2_e, cor(d.y, o.predy_e))
    if model.startswith("ML"):
        kk = o.k - 1 if model == "ML_Error" and o.vm.shape[0] < o.k else o.k
        c.eq("aic", o.aic, 2 * o.k - 2 * float(o.logll))
        c.eq("schwarz", o.schwarz, o.k * np.log(d.n) - 2 * float(o.logll))
    if model == "TSLS":
        Zh = o.z
        Ph = o.h @ np.linalg.solve(o.h.T @ o.h, o.h.T)
        py = Ph @ o.yend
        def rss(A):
            b, *_ = np.linalg.lstsq(A, d.y, rcond=None)
            return float(((d.y - A @ b) ** 2).sum())
        r0, r1 = rss(Zh), rss(np.hstack([Zh, py]))
        df2 = d.n - Zh.shape[1] - 1
        F = (r0 - r1) / (r1 / df2)
        c.eq("DWH", o.dwh[0], F, tol=1e-5, scale=1 + F)
        c.eq("DWH p", o.dwh[1], c.stats.f.sf(F, 1, df2), tol=1e-5)
    c.frame_all("inputs unchanged")


@contract("C11", ["output:out_part_top", "output:_nonspat_top", "output:_nonspat_mid", "output:_spat_pseudo_r2", "output:_summary_dwh"],
          cases=[dict(kind=k) for k in ("OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error_Het", "OLS_Regimes", "TSLS_Regimes", "ML_Error_Regimes")],
          sym=False, draws=4, bounded="random data n<=80, printed digits")
def printed(c, kind):
    """the summary prints every diagnostic under its own name, with its degrees of freedom, value and p-value."""
    name, d, kw = zoo.cross_args(c, kind)
    if "OLS" in kind or kind == "TSLS":
        kw["nonspat_diag"] = True
    if kind == "OLS":
        kw["vif"] = True
    if kind in ("OLS", "OLS_Regimes"):
        kw["white_test"] = True
    if kind.endswith("Regimes"):
        kw.update(regime_err_sep=True, constant_regi="many", cols2regi="all", slx_lags=0)
    try:
        o = zoo.build(c, name, kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    for m, text in K.sections(c, o):
        P = lambda t, *v: K.printed(c, text, t, *v)
        P("Number of Observations", m.n)
        P("Number of Variables", m.k)
        P("Degrees of Freedom", m.n - m.k)
        P("Mean dependent var", m.mean_y)
        P("S.D. dependent var", m.std_y)
        if "OLS" in kind:
            P("R-squared", m.r2)
            P("Adjusted R-squared", m.ar2)
            P("Sum squared residual", m.utu)
            P("F-statistic", m.f_stat[0])
            P("Prob(F-statistic)", m.f_stat[1])
            P("Sigma-square", m.sig2)
            P("S.E. of regression", np.sqrt(m.sig2))
            P("Sigma-square ML", m.sig2n)
            P("S.E of regression ML", np.sqrt(m.sig2n))
            P("Log likelihood", m.logll)
            P("Akaike info criterion", m.aic)
            P("Schwarz criterion", m.schwarz)
            P("MULTICOLLINEARITY CONDITION NUMBER", m.mulColli)
            P("Jarque-Bera", m.jarque_bera["df"], m.jarque_bera["jb"], m.jarque_bera["pvalue"])
            P("Breusch-Pagan test", m.breusch_pagan["df"], m.breusch_pagan["bp"], m.breusch_pagan["pvalue"])
            P("Koenker-Bassett test", m.koenker_bassett["df"], m.koenker_bassett["kb"], m.koenker_bassett["pvalue"])
            if isinstance(getattr(m, "white", None), dict):
                P("White", m.white["df"], m.white["wh"], m.white["pvalue"])
        else:
            P("Pseudo R-squared", m.pr2)
        if kind.startswith("ML"):
            P("Log likelihood", m.logll)
            P("Sigma-square ML", m.sig2)
            P("S.E of regression", np.sqrt(m.sig2))
            P("Akaike info criterion", m.aic)
            P("Schwarz criterion", m.schwarz)
        if kind in ("GM_Lag", "ML_Lag") and abs(float(np.ravel(m.rho)[0])) < 1:
            P("Spatial Pseudo R-squared", m.pr2_e)
        if kind == "TSLS":
            P("Durbin-Wu-Hausman test", m.yend.shape[1], *m.dwh)
        if kind == "OLS":
            T = text.partition("VARIANCE INFLATION FACTOR")[2].partition("\n\n")[0]
            X = np.asarray(m.x.todense() if hasattr(m.x, "todense") else m.x)
            for j, nm in list(enumerate(m.name_x))[1:]:
                e = K.ols_ref(X[:, [j]], np.delete(X, j, 1))[1]
                v = ((X[:, j] - X[:, j].mean()) ** 2).sum() / (e ** 2).sum()
                K.printed(c, T, nm, v, 1 / v)


@contract("C11", ["diagnostics_tsls:t_stat"], cases=[dict(k=k, z=z) for k in (1, 3) for z in (False, True)], draws=3,
          note="for every number of observations; k enumerated")
def t_and_z(c, k, z):
    """t_stat: coefficient over the root of its variance, two-sided p from Student's t with n - k degrees of freedom or the normal."""
    n = c.dim("n", 10, 40)
    b = c.array("b", k, 1, style="plain")
    V = c.array("V", k, k, symmetric=True, positive=True, style="plain")
    o = type("R", (), {})()
    o.betas, o.vm, o.n, o.k = b, V, n, k
    t = c.func("diagnostics_tsls:t_stat")(o, z_stat=z)
    c.same("one test per coefficient", len(t), k)
    for i in range(k):
        s = b[i, 0] / c.np.sqrt(V[i, i])
        c.eq("statistic %d" % i, t[i][0], s)
        p = 2 * (c.stats.norm.sf(abs(s)) if z else c.stats.t.sf(abs(s), n - k))
        c.eq("p-value %d" % i, t[i][1], p)
    c.frame("inputs unchanged", b, V)


@contract("C11", ["diagnostics_tsls:pr2_aspatial", "diagnostics_tsls:pr2_spatial"], draws=3,
          note="trusted: scipy.stats.pearsonr returns the correlation of its two arguments")
def squared_correlation(c):
    """the pseudo R2 are the squared correlations of y with predy, and of y with predy_e."""
    n = c.dim("n", 10, 40)
    y, p, e = c.array("y", n, 1), c.array("p", n, 1), c.array("e", n, 1)
    o = type("R", (), {})()
    o.y, o.predy, o.predy_e = y, p, e
    for f, v in (("pr2_aspatial", p), ("pr2_spatial", e)):
        if not c.symbolic:
            r = np.corrcoef(y[:, 0], v[:, 0])[0, 1]
            if np.isfinite(r):
                c.eq(f, c.func("diagnostics_tsls:" + f)(o), r ** 2, tol=1e-6, scale=1)
            continue
        rho, got = c.scalar("rho_" + f), []

        def pearson(a, b):
            got.append((a, b))
            return rho, None
        c.stub("diagnostics_tsls:pearsonr", pearson)
        r2 = c.func("diagnostics_tsls:" + f)(o)
        c.structure(len(got) == 1, "the correlation is not computed by one call of pearsonr")
        c.eq(f, r2, rho * rho)
        a, b = (q.reshape((n, 1)) for q in got[0])
        c.eq(f + ": product of the two vectors", a * b, y * v)
        c.eq(f + ": sum of the two vectors", a + b, y + v)
    c.frame("inputs unchanged", y, p, e)
