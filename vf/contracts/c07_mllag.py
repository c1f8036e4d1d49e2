"""C07: maximum likelihood spatial lag."""
from ..engine import contract
from . import common as K
from . import zoo

METH = ("full", "LU", "ord")


@contract("C07", ["ml_lag:lag_c_loglik", "ml_lag:lag_c_loglik_sp", "ml_lag:lag_c_loglik_ord"], cases=[dict(m=m) for m in METH], draws=8,
          note="log|det| = sum log|diag U| (LU) = sum log of eigenvalues (Ord) are axioms; det > 0 on the search interval")
def lag_loglik(c, m):
    np = c.np
    n = c.dim("n", 6, 40)
    r = c.scalar("r", -0.95, 0.95)
    w = K.lik_weights(c, "W", n, r, m == "LU")
    W = c.wd(w)
    e0, e1 = c.array("e0", n, 1), c.array("e1", n, 1)
    if m == "full":
        v = c.func("ml_lag:lag_c_loglik")(r, n, e0, e1, W)
    elif m == "LU":
        v = c.func("ml_lag:lag_c_loglik_sp")(r, n, e0, e1, c.sparse_mod.identity(n), w.sparse)
    else:
        v = c.func("ml_lag:lag_c_loglik_ord")(r, n, e0, e1, np.linalg.eigvals(W))
    er = e0 - r * e1
    s2 = (er.T @ er)[0, 0] / n
    c.eq("negative concentrated log-likelihood", v, n / 2 * np.log(s2) - c.logdet(c.eye(n) - r * W))


@contract("C07", ["ml_lag:BaseML_Lag.__init__", "ml_lag:lag_c_loglik", "ml_lag:lag_c_loglik_sp", "ml_lag:lag_c_loglik_ord", "sputils:spfill_diagonal", "sputils:spinv"],
          cases=[dict(m=m, kind=k) for m in METH for k in ("row", "gen")], symcases=[dict(m=m, kind="row") for m in METH], draws=5, timeout=120,
          note="minimize_scalar returns a minimiser of the objective it is given; inverse_prod: callee contract (C14)")
def base_ml_lag(c, m, kind):
    np = c.np
    n, k = c.dim("n", 15, 45), c.dim("k", 1, 4)
    c.assume(n > k + 3)
    if c.symbolic:
        w, y, x = c.weights("W", n, kind), c.array("y", n, 1), c.array("x", n, k)
        rec = []
        pe = c.array("PE", n, 1)
        c.stub("utils:inverse_prod", lambda w_, data, scalar, post_multiply=False, inv_method="power_exp", threshold=1e-10, max_iterations=None:
               rec.append((w_, data, scalar, post_multiply)) or pe)
    else:
        d = K.spdata(c, n, k, wkind=kind, rho=c.rng.uniform(-0.5, 0.8) if kind == "row" else c.rng.uniform(-0.3, 0.5), want_w=True)
        w, y, x = scale_w(c, d, kind), d.y, d.X
        k = k + 1
        c.assume(K.well(x))
    W = c.wd(w)
    fit = lambda: c.func("ml_lag:BaseML_Lag")(y, x, w, method=m)
    o = fit() if c.symbolic else K.series(c, fit, W)
    b, r = o.betas[:-1], o.betas[-1, 0]
    c.eq("rho", o.rho, r)
    if c.symbolic:
        call = c.mincalls()[0]
        c.structure(len(c.mincalls()) == 1, "one optimisation")
        check_bounds(c, call)
    Q = c.inv(x.T @ x)
    ay = y - r * (W @ y)
    c.eq("betas = (X'X)^-1 X'(I - rho W) y", b, Q @ (x.T @ ay), tol=1e-6)
    u = ay - x @ b
    c.eq("u = (I - rho W) y - X b", o.u, u)
    c.eq("predy", o.predy, y - u)
    s2 = (u.T @ u)[0, 0] / n
    c.eq("sig2 = u'u/n", o.sig2, s2)
    c.eq("log-likelihood at the estimates", o.logll,
         -(n / 2 * np.log(2 * np.pi)) - n / 2 * np.log(s2) - n / 2 + c.logdet(c.eye(n) - r * W), tol=1e-7)
    if c.symbolic:
        c.structure(len(rec) == 1 and not rec[0][3] and rec[0][0].shape == w.sparse.shape, "predy_e call")
        c.eq("predy_e: W", c.dense(rec[0][0]), W)
        c.eq("predy_e: X b", rec[0][1], x @ b)
        c.eq("predy_e: rho", rec[0][2], r)
        c.eq("predy_e", o.predy_e, pe)
    else:
        pe = np.linalg.solve(np.eye(n) - r * W, x @ b)
        c.eq("predy_e = (I - rho W)^-1 X b", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
        ml_grid(c, "rho maximises the concentrated likelihood", r, lambda q: conc_lag(W, y, x, q))
        c.assume(np.linalg.cond(np.eye(n) - r * W) < 1e4)
        c.assume(m != "ord" or kind == "gen" or not sym_structure(W))      # known finding: see ml_lag_ord_vm
    c.eq("e_pred", o.e_pred, y - o.predy_e)
    inf = lag_info(c, W, x, r, s2, o.predy_e)
    V1 = c.inv(inf)
    c.eq("information matrix inverse", o.vm1, V1, tol=1e-4)
    c.eq("vm = its leading block", o.vm, V1[:k + 1, :k + 1], tol=1e-4)
    c.frame("inputs unchanged", y, x)
    if not c.symbolic:
        c.frame_all("inputs unchanged")


def check_bounds(c, call):
    from ..terms import Expr
    b = call["bounds"]
    c.same("search interval (-1, 1)", (b is not None and (b[0] - Expr.const(-1)).d == {} and (b[1] - Expr.const(1)).d == {}), True)


def sym_structure(W):
    B = W != 0
    return bool((B == B.T).all())


def scale_w(c, d, kind):
    """weights with spectral radius <= 1 (general weights are rescaled)."""
    import libpysal
    if kind == "row":
        return d.w
    np = c.np
    r = np.abs(np.linalg.eigvals(d.W)).max()
    w = libpysal.weights.W(d.w.neighbors, {i: [v / r for v in ws] for i, ws in d.w.weights.items()}, id_order=d.w.id_order, silence_warnings=True)
    c.inputs["W"] = w
    c.copies["W"] = w.sparse.toarray().copy()
    d.w, d.W = w, w.sparse.toarray()
    rho = c.rng.uniform(-0.4, 0.7)
    d.y[:] = np.linalg.solve(np.eye(d.n) - rho * d.W, 1 + d.x.sum(1, keepdims=True) + c.rng.randn(d.n, 1) * 0.7)
    K.reg(c, "y", d.y)
    return w


def symmetrised(W):
    import numpy as np
    d = np.sqrt((W != 0).sum(1))
    d[d == 0] = 1                                   # a row without neighbours is zero either way
    return (W * d[:, None]) / d[None, :]


def close(a, b, tol):
    import numpy as np
    return np.abs(np.asarray(a) - b).max() <= tol * np.abs(b).max()


def lag_info(c, W, x, r, s2, pe, WT=None):
    np = c.np
    n, k = x.shape
    WT = W if WT is None else WT
    A = c.inv(c.eye(n) - r * WT)
    G = WT @ A
    wp = W @ pe
    rr = c.tr(G @ G) + c.tr(G.T @ G) + (wp.T @ wp)[0, 0] / s2
    rs = c.tr(G) / s2
    xw = x.T @ wp / s2
    z = np.zeros((k, 1))
    return np.vstack((np.hstack((x.T @ x / s2, xw, z)), np.hstack((xw.T, np.array([[rr]]), np.array([[rs]]))),
                      np.hstack((z.T, np.array([[rs]]), np.array([[n / (2 * s2 * s2)]])))))


def conc_lag(W, y, X, r):
    import numpy as np
    n = len(y)
    ay = y - r * (W @ y)
    _, e = K.ols_ref(ay, X)
    s, ld = np.linalg.slogdet(np.eye(n) - r * W)
    return -n / 2 * np.log(2 * np.pi) - n / 2 * np.log(float((e ** 2).sum()) / n) - n / 2 + ld if s > 0 else -np.inf


def ml_grid(c, label, r, ll):
    """the reported parameter is a local maximum, and no grid point near it beats it; global maximum up to unimodality."""
    np = c.np
    mine = ll(r)
    loc = [ll(q) for q in (r - 0.01, r + 0.01, r - 1e-3, r + 1e-3) if -1 < q < 1]
    c.true(label, all(mine >= v - 1e-6 * (1 + abs(mine)) for v in loc), (r, mine, loc))
    vals = [ll(q) for q in np.linspace(-0.98, 0.98, 50)]
    v = [-np.inf] + list(vals) + [-np.inf]                          # a likelihood that rises towards an end of the interval has a maximum there too
    peaks = sum(1 for i in range(1, 51) if v[i] > v[i - 1] and v[i] >= v[i + 1])
    if peaks <= 1:
        c.true(label + " (grid)", mine >= max(vals) - 1e-6 * (1 + abs(mine)), (r, mine, max(vals)))


MLC = [dict(m=m, slx=s, sv=v, pandas=p, kind=k) for m, s, v, p, k in
       [("full", 0, None, False, "row"), ("LU", 0, None, True, "gen"), ("ord", 0, None, False, "gen"), ("full", 1, None, False, "row"),
        ("LU", 2, None, False, "row"), ("ord", 1, None, True, "row"), ("full", 1, [True, False], False, "row"), ("LU", 2, [False, True], False, "gen")]]


@contract("C07", ["ml_lag:ML_Lag.__init__", "user_output:flex_wx"], cases=MLC, sym=False, draws=5, bounded="random data n<=60, options enumerated")
def ml_lag_class(c, m, slx, sv, pandas, kind):
    np = c.np
    d = K.spdata(c, k=2, wkind=kind)
    w = scale_w(c, d, kind)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, w, slx, vars_=sv)
    c.assume(K.well(X))
    o = K.series(c, lambda: c.func("ml_lag:ML_Lag")(w=w, slx_lags=slx, method=m, spat_diag=bool(c.rng.rand() < 0.5), **kw), d.W)
    r = float(o.rho)
    n, k = X.shape
    ml_lag_post(c, o, d.y, X, d.W, m, kind)
    c.same("names", list(o.name_x), lab + ["W_dep"])
    c.same("table rows", list(o.output["var_names"]), lab + ["W_dep"])
    c.eq("table coefficients", o.output["coefficients"].to_numpy(float), o.betas.ravel())
    c.same("k counts rho", o.k, k + 1)
    c.eq("aic", o.aic, -2 * float(o.logll) + 2 * (k + 1))
    c.eq("schwarz", o.schwarz, -2 * float(o.logll) + np.log(n) * (k + 1))
    c.eq("pr2", o.pr2, np.corrcoef(d.y.ravel(), o.predy.ravel())[0, 1] ** 2)
    c.eq("pr2_e", o.pr2_e, np.corrcoef(d.y.ravel(), o.predy_e.ravel())[0, 1] ** 2)
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


def ml_lag_post(c, o, y, X, W, m, kind):
    np = c.np
    n, k = X.shape
    b, r = np.asarray(o.betas)[:-1], float(np.asarray(o.betas)[-1, 0])
    ay = y - r * (W @ y)
    rb, e = K.ols_ref(ay, X)
    c.eq("betas", b, rb, tol=1e-6)
    c.eq("u", o.u, e)
    c.eq("predy", o.predy, y - e)
    s2 = float((e ** 2).sum()) / n
    c.eq("sig2", o.sig2, s2)
    c.eq("logll", o.logll, conc_lag(W, y, X, r), tol=1e-7)
    pe = np.linalg.solve(np.eye(n) - r * W, X @ b)
    c.eq("predy_e", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
    ml_grid(c, "rho maximises the likelihood", r, lambda q: conc_lag(W, y, X, q))
    if np.linalg.cond(np.eye(n) - r * W) < 1e4:
        V = np.linalg.inv(lag_info(c, W, X, r, s2, pe))[:-1, :-1]
        if m == "ord" and sym_structure(W):       # known finding F05: trace terms of the symmetrised W
            V2 = np.linalg.inv(lag_info(c, W, X, r, s2, pe, symmetrised(W)))[:-1, :-1]
            c.true("vm (symmetric structure, ord)", close(o.vm, V, 1e-4) or close(o.vm, V2, 1e-4))
        else:
            c.eq("vm", o.vm, V, tol=1e-4)


@contract("C07", ["ml_lag:ML_Lag.__init__"], sym=False, draws=4, bounded="random data, symmetric binary weights, row-standardised")
def ml_lag_ord_vm(c):
    """Ord method on structurally symmetric weights: same covariance as the other methods."""
    np = c.np
    d = K.spdata(c, k=2, wkind="sim")
    c.assume(K.well(d.X) and sym_structure(d.W))
    o = c.func("ml_lag:BaseML_Lag")(d.y, d.X, d.w, method="ord")
    f = c.func("ml_lag:BaseML_Lag")(d.y, d.X, d.w, method="full")
    c.eq("ord: same rho as full", o.rho, f.rho, tol=1e-4, scale=1)
    c.eq("ord: same log-likelihood as full", o.logll, f.logll)
    ml_lag_post(c, o, d.y, d.X, d.W, "ord", "sim")
    c.eq("ord: same covariance as full (symmetrised W)", o.vm, f.vm, tol=1e-4)


@contract("C07", ["ml_lag:ML_Lag.__init__", "ml_lag:BaseML_Lag.__init__"], cases=[dict(kind=k) for k in ["ML_Lag"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C07", ["ml_lag:ML_Lag.__init__"], cases=[dict(s, method=m) for s in K.SLX for m in ("full", "ord")], num=False, note="k = 2 regressors, SLX options enumerated")
def ml_lag_constructor(c, slx, sv, method):
    K.constructor(c, "ml_lag", "ML_Lag", "ml_lag:BaseML_Lag", slx, sv, marks=("epsilon",), tail=("rho",), whole_w=True, given=dict(spat_diag=False, spat_impacts=None),
                  fixed={"method": (method, {"method": method.upper()})})
