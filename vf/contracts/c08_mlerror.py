"""C08: maximum likelihood spatial error."""
from ..engine import contract
from . import common as K
from . import zoo
from .c07_mllag import METH, check_bounds, close, ml_grid, scale_w, sym_structure, symmetrised


def conc_err(W, y, X, r):
    import numpy as np
    n = len(y)
    _, e = K.ols_ref(K.filt(W, r, y), K.filt(W, r, X))
    s, ld = np.linalg.slogdet(np.eye(n) - r * W)
    return -n / 2 * np.log(2 * np.pi) - n / 2 * np.log(float((e ** 2).sum()) / n) - n / 2 + ld if s > 0 else -np.inf


@contract("C08", ["ml_error:err_c_loglik", "ml_error:err_c_loglik_sp", "ml_error:err_c_loglik_ord"], cases=[dict(m=m) for m in METH], draws=8,
          note="log|det| = sum log|diag U| (LU) = sum log of eigenvalues (Ord) are axioms; det > 0 on the search interval")
def err_loglik(c, m):
    np = c.np
    n, k = c.dim("n", 8, 40), c.dim("k", 1, 3)
    c.assume(n > k + 2)
    r = c.scalar("r", -0.95, 0.95)
    w = K.lik_weights(c, "W", n, r, m == "LU")
    W = c.wd(w)
    y, x = c.array("y", n, 1), c.array("x", n, k)
    if not c.symbolic:
        c.assume(K.well(x))
    yl, xl = W @ y, W @ x
    if m == "full":
        v = c.func("ml_error:err_c_loglik")(r, n, y, yl, x, xl, W)
    elif m == "LU":
        v = c.func("ml_error:err_c_loglik_sp")(r, n, y, yl, x, xl, c.sparse_mod.identity(n), w.sparse)
    else:
        v = c.func("ml_error:err_c_loglik_ord")(r, n, y, yl, x, xl, np.linalg.eigvals(W))
    ys, xs = y - r * yl, x - r * xl
    e = ys - xs @ (c.inv(xs.T @ xs) @ (xs.T @ ys))
    s2 = (e.T @ e)[0, 0] / n
    c.eq("negative concentrated log-likelihood", v, n / 2 * np.log(s2) - c.logdet(c.eye(n) - r * W))
    c.frame("inputs unchanged", y, x)


@contract("C08", ["ml_error:BaseML_Error.__init__", "ml_error:BaseML_Error.get_x_lag", "ml_error:err_c_loglik", "ml_error:err_c_loglik_sp", "ml_error:err_c_loglik_ord"],
          cases=[dict(m=m, kind=k) for m in METH for k in ("row", "gen")], symcases=[dict(m=m, kind="row", _let=3) for m in METH], draws=5, timeout=120,
          note="minimize_scalar returns a minimiser of the objective it is given; callee contracts err_c_loglik* (proved in err_loglik)")
def base_ml_error(c, m, kind):
    np = c.np
    n, k = c.dim("n", 15, 45), c.dim("k", 1, 4)
    c.assume(n > k + 3)
    if c.symbolic:
        w, y, x = c.weights("W", n, kind), c.array("y", n, 1), c.array("x", n, k)
        calls, objs = [], []
        lam, LL = c.scalar("lam", -1, 1), c.scalar("LL")

        class Res:
            x, fun = lam, LL
        c.stub("ml_error:minimize_scalar", lambda fun, bracket=None, bounds=None, args=(), method=None, options=None, tol=None:
               calls.append((fun, bounds, args)) or Res)
        for nm in ("err_c_loglik", "err_c_loglik_sp", "err_c_loglik_ord"):
            c.stub("ml_error:" + nm, obj(nm))
    else:
        d = K.spdata(c, n, k, wkind=kind, rho=0.0, lam=c.rng.uniform(-0.5, 0.8))
        w, y, x = scale_w(c, d, kind), d.y, d.X
        k = k + 1
        c.assume(K.well(x))
    W = c.wd(w)
    o = c.func("ml_error:BaseML_Error")(y, x, w, method=m)
    b, r = o.betas[:-1], o.betas[-1, 0]
    c.eq("lam", o.lam, r)
    if c.symbolic:
        c.structure(len(calls) == 1 and callable(calls[0][0]), "one optimisation of the likelihood")
        f, bounds, args = calls[0]
        c.same("search interval (-1, 1)", [float(v) for v in bounds], [-1.0, 1.0])
        c.eq("lambda is the minimiser", r, lam)
        # the objective handed to the minimiser, at an arbitrary point
        t = c.scalar("t")
        g = f(t, *args)
        c.structure(isinstance(g, dict), "objective is one of the likelihood functions")
        for nm, ref in (("lam", t), ("n", n), ("y", y), ("ylag", W @ y), ("x", x), ("xlag", W @ x)):
            c.eq("objective argument " + nm, g[nm], ref)
        if g["f"] == "err_c_loglik":
            c.eq("objective argument W", c.dense(g["W"]), W)
        elif g["f"] == "err_c_loglik_sp":
            c.eq("objective argument W", c.dense(g["Wsp"]), W)
            c.eq("objective argument I", c.dense(g["I"]), c.eye(n))
        else:
            c.eq("objective argument eigenvalues", g["evals"], np.linalg.eigvals(W))
    ys, xs = y - r * (W @ y), x - r * (W @ x)
    Q = c.inv(xs.T @ xs)
    c.eq("betas solve the filtered least squares problem", b, Q @ (xs.T @ ys), tol=1e-6)
    u = y - x @ b
    c.eq("u = y - X b", o.u, u)
    c.eq("predy", o.predy, x @ b)
    e = u - r * (W @ u)
    c.eq("e_filtered = (I - lam W) u", o.e_filtered, e)
    s2 = (e.T @ e)[0, 0] / n
    c.eq("sig2 = e'e/n", o.sig2, s2)
    nl = n / 2 * np.log(s2) - c.logdet(c.eye(n) - r * W) if not c.symbolic else LL
    c.eq("log-likelihood at the estimates", o.logll, -(n / 2 * np.log(2 * np.pi)) - nl - n / 2, tol=1e-7)
    if not c.symbolic:
        ml_grid(c, "lambda maximises the concentrated likelihood", r, lambda q: conc_err(W, y, x, q))
        c.assume(np.linalg.cond(np.eye(n) - r * W) < 1e4)
    if c.symbolic:
        s2 = o.sig2[0, 0]           # equal by the obligation above; keeps the terms shared
    V1 = c.inv(err_info(c, W, r, s2))
    if not c.symbolic and m == "ord" and sym_structure(W):          # known finding F06
        V2 = c.inv(err_info(c, symmetrised(W), r, s2))
        c.true("information matrix inverse (symmetric structure, ord)", close(o.vm1, V1, 1e-4) or close(o.vm1, V2, 1e-4))
    else:
        c.eq("information matrix inverse", o.vm1, V1, tol=1e-4)
    c.eq("coefficient block", o.vm[:k, :k], s2 * Q, tol=1e-5)
    c.eq("lambda variance", o.vm[k:, k:], o.vm1[0, 0])
    c.eq("no covariance between coefficients and lambda", o.vm[:k, k:], np.zeros((k, 1)))
    c.eq("no covariance between lambda and coefficients", o.vm[k:, :k], np.zeros((1, k)))
    c.frame("inputs unchanged", y, x)
    if not c.symbolic:
        c.frame_all("inputs unchanged")


def obj(nm):
    if nm == "err_c_loglik":
        def err_c_loglik(lam, n, y, ylag, x, xlag, W):
            return dict(f=nm, lam=lam, n=n, y=y, ylag=ylag, x=x, xlag=xlag, W=W)
        return err_c_loglik
    if nm == "err_c_loglik_sp":
        def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
            return dict(f=nm, lam=lam, n=n, y=y, ylag=ylag, x=x, xlag=xlag, I=I, Wsp=Wsp)
        return err_c_loglik_sp

    def err_c_loglik_ord(lam, n, y, ylag, x, xlag, evals):
        return dict(f=nm, lam=lam, n=n, y=y, ylag=ylag, x=x, xlag=xlag, evals=evals)
    return err_c_loglik_ord


def err_info(c, W, r, s2):
    np = c.np
    n = W.shape[0]
    A = c.inv(c.eye(n) - r * W)
    G = W @ A
    t2, rs = c.tr(G @ G) + c.tr(G.T @ G), c.tr(G) / s2
    return np.array([[t2, rs], [rs, n / (2 * s2 * s2)]])


MLC = [dict(m=m, slx=s, sv=v, pandas=p, kind=k) for m, s, v, p, k in
       [("full", 0, None, False, "row"), ("LU", 0, None, True, "gen"), ("ord", 0, None, False, "gen"), ("full", 1, None, False, "row"),
        ("LU", 2, None, False, "row"), ("ord", 1, None, True, "row"), ("full", 1, [True, False], False, "row"), ("LU", 2, [False, True], False, "gen")]]


@contract("C08", ["ml_error:ML_Error.__init__", "user_output:flex_wx"], cases=MLC, sym=False, draws=5, bounded="random data n<=60, options enumerated")
def ml_error_class(c, m, slx, sv, pandas, kind):
    np = c.np
    d = K.spdata(c, k=2, wkind=kind, rho=0.0)
    w = scale_w(c, d, kind)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, w, slx, vars_=sv)
    c.assume(K.well(X))
    o = c.func("ml_error:ML_Error")(w=w, slx_lags=slx, method=m, **kw)
    n, k = X.shape
    ml_error_post(c, o, d.y, X, d.W, m)
    c.same("names", list(o.name_x), lab + ["lambda"])
    c.same("table rows", list(o.output["var_names"]), lab + ["lambda"])
    c.eq("table coefficients", o.output["coefficients"].to_numpy(float), o.betas.ravel())
    c.same("k excludes lambda", o.k, k)
    c.eq("aic", o.aic, -2 * float(o.logll) + 2 * k)
    c.eq("schwarz", o.schwarz, -2 * float(o.logll) + np.log(n) * k)
    c.eq("pr2", o.pr2, np.corrcoef(d.y.ravel(), o.predy.ravel())[0, 1] ** 2)
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


def ml_error_post(c, o, y, X, W, m):
    np = c.np
    n, k = X.shape
    b, r = np.asarray(o.betas)[:-1], float(np.asarray(o.betas)[-1, 0])
    rb, e = K.ols_ref(K.filt(W, r, y), K.filt(W, r, X))
    c.eq("betas", b, rb, tol=1e-6)
    c.eq("u", o.u, y - X @ b)
    c.eq("predy", o.predy, X @ b)
    c.eq("e_filtered", o.e_filtered, e)
    s2 = float((e ** 2).sum()) / n
    c.eq("sig2", o.sig2, s2)
    c.eq("logll", o.logll, conc_err(W, y, X, r), tol=1e-7)
    ml_grid(c, "lambda maximises the likelihood", r, lambda q: conc_err(W, y, X, q))
    if np.linalg.cond(np.eye(n) - r * W) < 1e4:
        xs = K.filt(W, r, X)
        c.eq("vm: coefficients", np.asarray(o.vm)[:k, :k], s2 * np.linalg.inv(xs.T @ xs), tol=1e-5)
        v = np.linalg.inv(err_info(c, W, r, s2))[0, 0]
        if m == "ord" and sym_structure(W):
            v2 = np.linalg.inv(err_info(c, symmetrised(W), r, s2))[0, 0]
            c.true("vm: lambda (symmetric structure, ord)", min(abs(o.vm[k, k] - v), abs(o.vm[k, k] - v2)) < 1e-4 * abs(v))
        else:
            c.eq("vm: lambda", o.vm[k, k], v, tol=1e-4)
        c.eq("vm: cross", np.asarray(o.vm)[:k, k], np.zeros(k))


@contract("C08", ["ml_error:ML_Error.__init__"], sym=False, draws=4, bounded="random data, symmetric binary weights, row-standardised")
def ml_error_ord_vm(c):
    """Ord method on structurally symmetric weights: same covariance as the other methods."""
    d = K.spdata(c, k=2, wkind="sim", rho=0.0)
    c.assume(K.well(d.X) and sym_structure(d.W))
    o = c.func("ml_error:BaseML_Error")(d.y, d.X, d.w, method="ord")
    f = c.func("ml_error:BaseML_Error")(d.y, d.X, d.w, method="full")
    c.eq("ord: same lambda as full", o.lam, f.lam, tol=1e-4, scale=1)
    c.eq("ord: same log-likelihood as full", o.logll, f.logll)
    ml_error_post(c, o, d.y, d.X, d.W, "ord")
    c.eq("ord: same covariance as full (symmetrised W)", o.vm, f.vm, tol=1e-4)


@contract("C08", ["ml_error:ML_Error.__init__", "ml_error:BaseML_Error.__init__"], cases=[dict(kind=k) for k in ["ML_Error"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C08", ["ml_error:ML_Error.__init__"], cases=[dict(s, method=m) for s in K.SLX for m in ("full", "ord")], num=False, note="k = 2 regressors, SLX options enumerated")
def ml_error_constructor(c, slx, sv, method):
    K.constructor(c, "ml_error", "ML_Error", "ml_error:BaseML_Error", slx, sv, marks=("epsilon",), tail=("lambda",), whole_w=True,
                  fixed={"method": (method, {"method": method.upper()})})
