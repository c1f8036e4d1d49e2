"""C01: ordinary least squares."""
from ..engine import contract
from . import common as K
from . import zoo


def ols_post(c, o, y, x, n, k, sig2n_k=True, who="ols"):
    """the least squares postcondition (shared by every contract that obtains an OLS object)."""
    b, u = o.betas, o.u
    c.eq(who + ": normal equations X'(y - Xb) = 0", x.T @ (y - x @ b), c.np.zeros((k, 1)), scale=1e3)
    c.eq(who + ": betas = (X'X)^-1 X'y", b, c.inv(x.T @ x) @ (x.T @ y))
    c.eq(who + ": predy = Xb", o.predy, x @ b)
    c.eq(who + ": u = y - predy", u, y - x @ b)
    c.eq(who + ": n", o.n, n)
    c.eq(who + ": k", o.k, k)
    e = y - x @ b
    c.eq(who + ": utu", o.utu, (e.T @ e)[0, 0])
    c.eq(who + ": sig2n", o.sig2n, (e.T @ e)[0, 0] / n)
    c.eq(who + ": sig2n_k", o.sig2n_k, (e.T @ e)[0, 0] / (n - k))
    c.eq(who + ": sig2", o.sig2, (e.T @ e)[0, 0] / ((n - k) if sig2n_k else n))
    c.eq(who + ": xtx", o.xtx, x.T @ x)
    c.eq(who + ": xtxi", o.xtxi @ (x.T @ x), c.eye(k), scale=1)
    c.eq(who + ": mean_y", o.mean_y, y.sum() / n)
    c.eq(who + ": std_y^2", o.std_y ** 2, ((y - y.sum() / n) ** 2).sum() / (n - 1))


@contract("C01", ["ols:BaseOLS.__init__", "utils:RegressionPropsY.mean_y", "utils:RegressionPropsY.std_y", "utils:RegressionPropsVM.utu",
                  "utils:RegressionPropsVM.sig2n", "utils:RegressionPropsVM.sig2n_k", "utils:RegressionPropsVM.vm", "sputils:spdot"],
          cases=[dict(sig2n_k=s) for s in (True, False)], draws=12)
def base_ols(c, sig2n_k):
    n = c.dim("n", 9, 60)
    k = c.dim("k", 1, 5)
    c.assume(n > k + 1)
    y, x = c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    o = c.func("ols:BaseOLS")(y, x, sig2n_k=sig2n_k)
    ols_post(c, o, y, x, n, k, sig2n_k)
    c.eq("vm = sig2 (X'X)^-1", o.vm, c.inv(x.T @ x) * o.sig2)
    c.same("y kept", o.y is y, True)
    c.same("x kept", o.x is x, True)
    c.frame("inputs unchanged", x, y)


@contract("C01", ["ols:BaseOLS.__init__", "robust:robust_vm", "sputils:spbroadcast"],
          cases=[dict(robust=r, sig2n_k=s) for r in ("white", "hac") for s in (True, False)], draws=12)
def base_ols_robust(c, robust, sig2n_k):
    n = c.dim("n", 9, 60)
    k = c.dim("k", 1, 4)
    c.assume(n > k + 1)
    y, x = c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    gwk = None
    if robust == "hac":
        gwk = K.kernel_weights(c, "G", n)
    o = c.func("ols:BaseOLS")(y, x, robust=robust, gwk=gwk, sig2n_k=sig2n_k)
    ols_post(c, o, y, x, n, k, sig2n_k)
    xi = c.inv(x.T @ x)
    xu = x * (y - x @ o.betas)
    if robust == "white":
        meat = xu.T @ xu
        if sig2n_k:
            meat = meat * (n / (n - k))
    else:
        meat = xu.T @ (c.wd(gwk) @ xu)
    c.eq("vm is the %s sandwich" % robust, o.vm, xi @ meat @ xi)
    c.frame("inputs unchanged", x, y)


@contract("C01", ["ols:BaseWLS.__init__", "ols:BaseOLS.__init__"], draws=10,
          note="pinv of a nonsingular square matrix is its inverse")
def base_wls(c):
    n = c.dim("n", 9, 60)
    k = c.dim("k", 1, 4)
    c.assume(n > k + 1)
    y, x = c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    w = c.array("w", n, 1, positive=True)
    o = c.func("ols:BaseWLS")(y, x, w)
    c.eq("weighted normal equations", x.T @ (w * (y - x @ o.betas)), c.np.zeros((k, 1)), scale=1e3)
    c.eq("predy", o.predy, x @ o.betas)
    c.eq("u", o.u, y - x @ o.betas)
    c.frame("inputs unchanged", x, y, w)


@contract("C01", ["ols:OLS.__init__", "ols:BaseOLS.__init__", "user_output:check_constant", "user_output:check_y", "user_output:check_arrays",
                  "diagnostics:r2", "diagnostics:ar2", "diagnostics:f_stat", "diagnostics:log_likelihood", "diagnostics:akaike",
                  "diagnostics:schwarz", "diagnostics:condition_index"],
          cases=[dict(robust=r, sig2n_k=s, slx_lags=l, pandas=p, yshape=ys)
                 for (r, s, l, p, ys) in [(None, True, 0, False, 2), (None, False, 0, True, 1), ("white", True, 0, False, 1),
                                          ("white", False, 1, False, 2), ("hac", True, 0, False, 2), (None, True, 1, True, 2),
                                          (None, True, 2, False, 2)]], sym=False, draws=8,
          bounded="random designs n<=60, k<=4, options enumerated")
def ols_class(c, robust, sig2n_k, slx_lags, pandas, yshape):
    np = c.np
    n = c.dim("n", 20, 60)
    k = c.dim("k", 1, 3)
    y, x = c.array("y", n, 1), c.array("x", n, k, generic=True)
    w = c.weights("W", n, "row") if slx_lags else None
    gwk = K.kernel_weights(c, "G", n) if robust == "hac" else None
    yy, xx = (y[:, 0] if yshape == 1 else y), x
    names = dict(name_y="dep", name_x=["v%d" % i for i in range(k)])
    if pandas:
        import pandas as pd
        yy = pd.Series(y[:, 0], name="dep")
        xx = pd.DataFrame(x, columns=names["name_x"])
        names = {}
    o = c.func("ols:OLS")(yy, xx, w=w, robust=robust, gwk=gwk, sig2n_k=sig2n_k, slx_lags=slx_lags, **names)
    X = np.hstack([np.ones((n, 1)), x])
    lab = ["CONSTANT"] + ["v%d" % i for i in range(k)]
    cur = x
    for l in range(slx_lags):
        cur = c.wd(w) @ cur
        X = np.hstack([X, cur])
        lab += ["W%s_v%d" % ("" if l == 0 else str(l + 1), i) for i in range(k)]
    K_ = X.shape[1]
    c.assume(np.linalg.cond(X) < 1e5 and n > K_ + 3)
    ols_post(c, o, y, X, n, K_, sig2n_k)
    xi = np.linalg.inv(X.T @ X)
    u = y - X @ (xi @ X.T @ y)
    if robust is None:
        vm = xi * o.sig2
    elif robust == "white":
        vm = xi @ ((X * u).T @ (X * u)) @ xi * ((n / (n - K_)) if sig2n_k else 1)
    else:
        vm = xi @ ((X * u).T @ (c.wd(gwk) @ (X * u))) @ xi
    c.eq("vm", o.vm, vm)
    c.same("regressor names", list(o.name_x), lab)
    c.same("dependent name", o.name_y, "dep")
    rss, tss = float((u ** 2).sum()), float(((y - y.mean()) ** 2).sum())
    c.eq("r2", o.r2, 1 - rss / tss)
    c.eq("ar2", o.ar2, 1 - (rss / (n - K_)) / (tss / (n - 1)))
    if not robust:
        F = ((tss - rss) / (K_ - 1)) / (rss / (n - K_))
        c.eq("f_stat", o.f_stat[0], F)
        c.eq("f_stat p", o.f_stat[1], c.stats.f.sf(F, K_ - 1, n - K_))
    ll = -0.5 * n * (np.log(2 * np.pi) + np.log(rss / n) + 1)
    c.eq("logll", o.logll, ll)
    c.eq("aic", o.aic, -2 * ll + 2 * K_)
    c.eq("schwarz", o.schwarz, -2 * ll + K_ * np.log(n))
    K.coef_table(c, o, y, "t")
    c.frame_all("inputs unchanged")


@contract("C01", ["ols:OLS.__init__", "ols:BaseOLS.__init__"], cases=[dict(kind=k) for k in ["OLS"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C01", ["ols:OLS.__init__"], cases=[dict(s, robust=r) for s in K.SLX for r in (None, "white", "hac")], num=False, note="k = 2 regressors, SLX options and robust enumerated")
def ols_constructor(c, slx, sv, robust):
    K.constructor(c, "ols", "OLS", "ols:BaseOLS", slx, sv, marks=("sig2n_k", "robust", "gwk"), given=dict(robust=robust, nonspat_diag=False, spat_diag=False))
