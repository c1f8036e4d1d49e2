"""C19: maximum likelihood panel models with fixed and random effects."""
import numpy as np

from ..engine import blank, contract
from . import common as K, zoo
from .c07_mllag import check_bounds, lag_info

U = "panel_utils:"


def layout(c, T, n=None, k=None, lo=8, hi=25, within=False):
    """a long format panel: y and x stacked period by period; with `within`, symbolic data are written as unit means plus
    deviations that sum to zero over the periods (every panel can be)."""
    n, k = n or c.dim("n", lo, hi), k or c.dim("k", 1, 3)
    if within and c.symbolic:
        def parts(v, m):
            mean, dev = c.array("m" + v, n, m), [c.array("%s%d" % (v, t), n, m) for t in range(T - 1)]
            last = -dev[0]
            for d in dev[1:]:
                last = last - d
            return [mean + d for d in dev + [last]]
        ys, xs = parts("y", 1), parts("x", k)
        return n, k, ys, xs, c.np.vstack(ys), c.np.vstack(xs)
    ys = [c.array("y%d" % t, n, 1) for t in range(T)]
    xs = [c.array("x%d" % t, n, k) for t in range(T)]
    if not c.symbolic:                 # with unit effects (so that the random effects are away from zero) and regressors that matter
        eff, b = c.rng.normal(size=(n, 1)) * c.rng.choice([0, 1, 2.5]), c.rng.normal(size=(k, 1)) * c.rng.choice([0, 1])
        for t in range(T):
            ys[t] += (eff * ys[t].std() + xs[t] @ b)
            c.copies["y%d" % t] = ys[t].copy()
    return n, k, ys, xs, c.np.vstack(ys), c.np.vstack(xs)


def bar(a):
    s = a[0]
    for b in a[1:]:
        s = s + b
    return s / len(a)


def demeaned(c, a, phi=0):
    m = bar(a)
    return [b - (1 - phi) * m for b in a]


@contract("C19", [U + "demean_panel"], cases=[dict(T=t, quasi=q) for t in (2, 3) for q in (False, True)], draws=4)
def demean(c, T, quasi):
    n, k, ys, xs, y, x = layout(c, T)
    phi = c.scalar("phi", 0.05, 0.95) if quasi else 0
    d = c.func(U + "demean_panel")(x, n, T, phi) if quasi else c.func(U + "demean_panel")(x, n, T)
    c.eq("each unit's rows less (1 - phi) times the unit's mean over the periods", d, c.np.vstack(demeaned(c, xs, phi)))
    c.frame("inputs unchanged", y, x)


FE, RE, P = "panel_fe:", "panel_re:", "panel:"


def wpanel(c, kind="row", T=2, **kw):
    n, k, ys, xs, y, x = layout(c, T, **kw)
    w = c.weights("W", n, kind)
    return n, k, ys, xs, y, x, w, c.wd(w)


def owner(c, qual):
    """a function, or a method called on an object that was not constructed."""
    mod, name = qual.split(":")
    if "." not in name:
        return c.func(qual)
    cls = c.func(mod + ":" + name.split(".")[0])
    c.func(qual)
    return getattr(blank(cls), name.split(".")[1])


@contract("C19", [FE + "lag_c_loglik_sp", RE + "lag_c_loglik_sp", P + "BaseML_LagFE.lag_c_loglik_sp", P + "ML_LagRE.lag_c_loglik_sp"],
          cases=[dict(f=f) for f in (FE + "lag_c_loglik_sp", RE + "lag_c_loglik_sp", P + "BaseML_LagFE.lag_c_loglik_sp", P + "ML_LagRE.lag_c_loglik_sp")],
          draws=5, note="log|det| = sum log|diag U| is an axiom of SuperLU")
def lag_loglik(c, f):
    n = c.dim("n", 5, 30)
    t = c.dim("T", 2, 6)
    m = c.dim("m", 8, 60)
    e0, e1, r = c.array("e0", m, 1), c.array("e1", m, 1), c.scalar("r", -0.9, 0.9)
    w = K.lik_weights(c, "W", n, r, True, "gen")
    W = c.wd(w)
    er = e0 - r * e1
    s2 = (er.T @ er)[0, 0] / (n * t)
    v = owner(c, f)(r, n, t, e0, e1, c.sparse_mod.identity(n), w.sparse)
    c.eq("negative concentrated log-likelihood", v[0, 0] if getattr(v, "ndim", 0) else v, n * t / 2 * c.np.log(s2) - t * c.logdet(c.eye(n) - r * W))


@contract("C19", [FE + "err_c_loglik_sp", P + "BaseML_ErrorFE.err_c_loglik_sp"], cases=[dict(f=f) for f in (FE + "err_c_loglik_sp", P + "BaseML_ErrorFE.err_c_loglik_sp")],
          draws=5, note="log|det| = sum log|diag U| is an axiom of SuperLU")
def err_loglik(c, f):
    n, t, m, k = c.dim("n", 5, 30), c.dim("T", 2, 6), c.dim("m", 12, 60), c.dim("k", 1, 3)
    y, yl, x, xl, lam = c.array("y", m, 1), c.array("yl", m, 1), c.array("x", m, k), c.array("xl", m, k), c.scalar("lam", -0.9, 0.9)
    w = K.lik_weights(c, "W", n, lam, True, "gen")
    W = c.wd(w)
    ys, xs = y - lam * yl, x - lam * xl
    e = ys - xs @ (c.inv(xs.T @ xs) @ (xs.T @ ys))
    args = (lam, n, t, y, yl, x, xl, c.sparse_mod.identity(n), w.sparse)
    v = owner(c, f)(*args)
    s2 = (e.T @ e)[0, 0]
    if f.startswith(FE):
        s2 = s2 / (n * t)
    c.eq("negative concentrated log-likelihood" + ("" if f.startswith(FE) else " up to its constant"), v, n * t / 2 * c.np.log(s2) - t * c.logdet(c.eye(n) - lam * W))


def interval(c, i=0, lo=None):
    """the search interval lies in (-1, 1) and contains (-0.99, 0.99)."""
    b = c.mincalls()[i]["bounds"]
    v = [x.d.get(((), ()), 0) for x in b]
    c.same("search interval", -1 <= v[0] <= -0.99 and 0.99 <= v[1] <= 1, True)


def abstract_demean(c, mod, parts):
    """callers see demean_panel through its contract (proved above): in proof mode its value is an array known only as
    'parts, demeaned with weight phi'; the same operand and weight give the same array."""
    if not c.symbolic:
        return lambda a, phi=0: demeaned(c, a, phi)
    from ..arr import arr_key, expr_of
    memo = {}
    of = {arr_key(c.np.vstack(p)): (nm, p) for nm, p in parts.items()}

    def get(a, phi=0):
        nm, p = of[arr_key(c.np.vstack(a))]
        key = (nm, expr_of(phi).key())
        if key not in memo:
            memo[key] = [c.array("D%s%d_%d" % (nm, len(memo), t), *b.shape) for t, b in enumerate(p)]
        return memo[key]

    def stub(arr, n, t, phi=0):
        nm, p = of[arr_key(arr)]
        c.same("demeaning over the units and periods", (len(p), bool(p[0].shape[0] == n)), (int(t), True))
        return c.np.vstack(get(p, phi))
    c.stub(mod + ":demean_panel", stub)
    return get


def at(c, T, n, W, a):
    """(I_T (x) W) applied period by period."""
    return c.np.vstack([W @ b for b in a])


def stack_info(c, rows):
    """a matrix from rows of blocks."""
    return c.np.vstack([c.np.hstack(r) for r in rows])


def one(c, v):
    return c.np.array([[v]])


def panel_lag_info(c, n, T, W, xd, r, s2, b):
    """information of the lag panel about coefficients, rho and sig2 (blocks of the coefficients, of both, of rho and sig2)."""
    G = W @ c.inv(c.eye(n) - r * W)
    X, g = c.np.vstack(xd), c.np.vstack([G @ (q @ b) for q in xd])
    z = c.np.zeros((X.shape[1], 1))
    rr = T * (c.tr(G @ G) + c.tr(G.T @ G)) + (g.T @ g)[0, 0] / s2
    rs = T * c.tr(G) / s2
    return G, X.T @ X / s2, X.T @ g / s2, z, rr, rs, n * T / (2 * s2 * s2)


@contract("C19", [FE + "BasePanel_FE_Lag.__init__", P + "BaseML_LagFE.__init__"], cases=[dict(cl=f, T=t) for f in (FE + "BasePanel_FE_Lag", P + "BaseML_LagFE") for t in (2, 3)],
          draws=3, timeout=150, note="minimize_scalar returns a minimiser of the objective it is given; inverse_prod: callee contract (C14)")
def base_fe_lag(c, cl, T):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T, within=True)
    if c.symbolic:
        rec, pe = [], c.np.vstack([c.array("PE%d" % t, n, 1) for t in range(T)])
        c.stub(cl.split(":")[0] + ":inverse_prod", lambda w_, data, scalar, post_multiply=False, inv_method="power_exp", threshold=1e-10, max_iterations=None:
               rec.append((w_, data, scalar, post_multiply)) or pe)
    o = c.func(cl)(y, x, w)
    yd, xd = demeaned(c, ys), demeaned(c, xs)
    Y, X = c.np.vstack(yd), c.np.vstack(xd)
    r = o.rho
    c.eq("demeaned y", o.y, Y)
    c.eq("demeaned x", o.x, X)
    WY = at(c, T, n, W, yd)
    Q = c.inv(X.T @ X)
    if c.symbolic:
        c.structure(len(c.mincalls()) == 1, "one optimisation")
        interval(c)
    b = Q @ (X.T @ (Y - r * WY))
    c.eq("betas = (X'X)^-1 X'(I - rho W) y and rho", o.betas, c.np.vstack((b, c.np.array([[r]]))), tol=1e-6)
    u = Y - r * WY - X @ b
    c.eq("u = (I - rho W) y - X b", o.u, u)
    c.eq("predy", o.predy, Y - u)
    s2 = (u.T @ u)[0, 0] / (n * T)
    c.eq("sig2 = u'u/nT", o.sig2, s2)
    c.eq("log-likelihood at the estimates", o.logll, -(n * T) / 2 * c.np.log(2 * c.np.pi) - n * T / 2 * c.np.log(s2) - n * T / 2 + T * c.logdet(c.eye(n) - r * W), tol=1e-7)
    if c.symbolic:
        c.eq("predy_e: W", c.dense(rec[0][0]), c.np.kron(c.eye(T), W))
        c.eq("predy_e: X b", rec[0][1], X @ b)
        c.eq("predy_e: rho", rec[0][2], r)
    elif abs(r) < 0.9:
        pe = np.linalg.solve(np.eye(n * T) - r * np.kron(np.eye(T), W), X @ b)
        c.eq("predy_e = (I - rho W)^-1 X b", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
    c.eq("e_pred", o.e_pred, Y - o.predy_e)
    G, bb, br, z, rr, rs, ss = panel_lag_info(c, n, T, W, xd, r, val(o.sig2), o.betas[:-1])
    V1 = c.inv(stack_info(c, [[bb, br, z], [br.T, one(c, rr), one(c, rs)], [z.T, one(c, rs), one(c, ss)]]))
    c.eq("covariance: inverse of the information matrix", o.vm1, V1, tol=1e-4)
    c.eq("vm = its leading block", o.vm, V1[:k + 1, :k + 1], tol=1e-4)
    c.eq("varb: inverse information with sig2 known", o.varb, c.inv(stack_info(c, [[bb, br], [br.T, one(c, rr)]])), tol=1e-4)
    c.eq("t", o.t, T)
    c.eq("n is the number of observations", o.n, n * T)
    c.frame("inputs unchanged", y, x)


@contract("C19", [FE + "BasePanel_FE_Error.__init__", P + "BaseML_ErrorFE.__init__"], cases=[dict(cl=f, T=t) for f in (FE + "BasePanel_FE_Error", P + "BaseML_ErrorFE") for t in (2, 3)],
          draws=3, timeout=150, note="minimize_scalar returns a minimiser of the objective it is given")
def base_fe_error(c, cl, T):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T, within=True)
    o = c.func(cl)(y, x, w)
    yd, xd = demeaned(c, ys), demeaned(c, xs)
    Y, X = c.np.vstack(yd), c.np.vstack(xd)
    c.eq("demeaned y", o.y, Y)
    c.eq("demeaned x", o.x, X)
    WY, WX = at(c, T, n, W, yd), at(c, T, n, W, xd)
    lam = o.lam
    if c.symbolic:
        c.structure(len(c.mincalls()) == 1, "one optimisation")
        interval(c)
    F, G = Y - lam * WY, X - lam * WX
    b = c.inv(G.T @ G) @ (G.T @ F)
    c.eq("betas: least squares on the filtered data, and lambda", o.betas, c.np.vstack((b, c.np.array([[lam]]))), tol=1e-6)
    u = Y - X @ b
    c.eq("u", o.u, u)
    c.eq("predy", o.predy, X @ b)
    e = F - G @ b
    c.eq("e_filtered = (I - lambda W) u", o.e_filtered, e)
    s2 = (e.T @ e)[0, 0] / (n * T)
    c.eq("sig2 = e'e/nT", o.sig2, s2)
    c.eq("log-likelihood at the estimates", o.logll, -(n * T) / 2 * c.np.log(2 * c.np.pi) - n * T / 2 * c.np.log(s2) - n * T / 2 + T * c.logdet(c.eye(n) - lam * W), tol=1e-7)
    c.eq("varb = sig2 (Xs'Xs)^-1", o.varb, s2 * c.inv(G.T @ G), tol=1e-5)
    H = W @ c.inv(c.eye(n) - lam * W)
    ll, ls = T * (c.tr(H @ H) + c.tr(H.T @ H)), T * c.tr(H) / val(o.sig2)
    V1 = c.inv(stack_info(c, [[one(c, ll), one(c, ls)], [one(c, ls), one(c, n * T / (2 * val(o.sig2) ** 2))]]))
    c.eq("covariance of lambda and sig2: inverse of the information matrix", o.vm1, V1, tol=1e-4)
    z = c.np.zeros((k, 1))
    c.eq("vm: coefficients and lambda are independent", o.vm, stack_info(c, [[o.varb, z], [z.T, V1[:1, :1]]]), tol=1e-4)
    c.eq("t", o.t, T)
    c.eq("n is the number of observations", o.n, n * T)
    c.frame("inputs unchanged", y, x)


def one_dim(c, mod, names, rec):
    """callee contract of minimize_scalar: an arbitrary point of the search interval, recorded with its objective."""
    from ..shims import OptRes

    def stub(fun, bracket=None, bounds=None, args=(), method=None, options=None, tol=None):
        v = c.scalar(names[len(rec)], 0, 1)
        f = fun(v, *args)
        rec.append((lambda t: fun(t, *args), bounds, v))
        return OptRes(c.np.array([[v]]) if getattr(f, "ndim", 0) else v, f)
    c.stub(mod + ":minimize_scalar", stub)


def val(v):
    return v[0, 0] if getattr(v, "ndim", 0) else v


def re_parts(c, D, ys, xs, W, phi, T, n):
    yd, xd = D(ys, phi), D(xs, phi)
    Y, X, WY = c.np.vstack(yd), c.np.vstack(xd), at(c, T, n, W, yd)
    Q = c.inv(X.T @ X)
    return Y, X, WY, Q, Y - X @ (Q @ (X.T @ Y)), WY - X @ (Q @ (X.T @ WY))


def lag_clik(c, n, T, W, rho, e0, e1):
    er = e0 - rho * e1
    return n * T / 2 * c.np.log((er.T @ er)[0, 0] / (n * T)) - T * c.logdet(c.eye(n) - rho * W)


def phi_clik(c, D, n, T, W, ys, xs, phi, rho, b):
    yd, xd = D(ys, phi), D(xs, phi)
    e = c.np.vstack([p - rho * (W @ p) - q @ b for p, q in zip(yd, xd)])
    return n * T / 2 * c.np.log((e.T @ e)[0, 0]) - n / 2 * c.np.log(phi ** 2)


@contract("C19", [RE + "phi_c_loglik", P + "ML_LagRE.phi_c_loglik"], cases=[dict(f=f, T=t) for f in (RE + "phi_c_loglik", P + "ML_LagRE.phi_c_loglik") for t in (2, 3)], draws=4)
def phi_loglik(c, f, T):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T)
    phi, rho, b = c.scalar("phi", 0.05, 0.95), c.scalar("rho", -0.9, 0.9), c.array("b", k, 1)
    D = lambda a, p: demeaned(c, a, p)
    v = owner(c, f)(phi, rho, b, y, x, n, T, c.sparse_mod.kron(c.sparse_mod.identity(T), w.sparse, format="csr"))
    c.eq("objective of the weight of the between variation", v[0, 0] if getattr(v, "ndim", 0) else v, phi_clik(c, D, n, T, W, ys, xs, phi, rho, b))


@contract("C19", [RE + "BasePanel_RE_Lag.__init__", P + "BaseML_LagRE.__init__"], cases=[dict(cl=f, T=t) for f in (RE + "BasePanel_RE_Lag", P + "ML_LagRE") for t in (2, 3)],
          symcases=[dict(cl=f, T=2) for f in (RE + "BasePanel_RE_Lag", P + "ML_LagRE")], draws=3, timeout=200,
          note="loop invariant of the alternating optimisation; minimize_scalar returns a minimiser of the objective it is given; inverse_prod: callee contract (C14)")
def base_re_lag(c, cl, T):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T)
    base = cl if cl.startswith(RE) else P + "BaseML_LagRE"
    st = {}
    D = abstract_demean(c, cl.split(":")[0], dict(y=ys, x=xs))
    if c.symbolic:
        pe = c.np.vstack([c.array("PE%d" % t, n, 1) for t in range(T)])
        rec, opt = [], []
        one_dim(c, cl.split(":")[0], ("vphi", "vrho"), opt)
        c.stub(cl.split(":")[0] + ":inverse_prod", lambda w_, data, scalar, post_multiply=False, inv_method="power_exp", threshold=1e-10, max_iterations=None:
               rec.append((w_, data, scalar, post_multiply)) or pe)

        def enter(L):
            o = L["self"]
            from ..shims import OptRes
            r = dict(L)
            st["first"] = bool(c.scalar("first", -1, 1) > 0)
            if st["first"]:
                st.update(phi=o.phi, rho=o.rho, b=L["b"], i=L["i"])
                return r
            phi, rho, prev, i = c.scalar("phi", 0, 1), c.scalar("rho", -1, 1), c.scalar("phi_before", 0, 1), c.dim("it1") - 1 + 1
            Y, X, WY, Q, e0, e1 = re_parts(c, D, ys, xs, W, phi, T, n)
            o.phi, o.rho, o.y, o.x = phi, rho, Y, X
            f = c.np.array([[lag_clik(c, n, T, W, rho, e0, e1)]])
            b = Q @ (X.T @ (Y - rho * WY))
            r.update(e0=e0, e1=e1, xtx=X.T @ X, xtxi=Q, b=b, i=i, converge=c.np.abs(prev - phi), res_rho=OptRes(c.np.array([[rho]]), f), phiold=prev,
                     ylag=WY, b0=Q @ (X.T @ Y), b1=Q @ (X.T @ WY))
            st.update(phi=phi, rho=rho, b=b, i=i, prev=prev)
            return r

        def back(L, was):
            o = L["self"]
            c.same("two optimisations per iteration", len(opt), 2)
            (p, lo, vp), (r, lr, vr) = opt
            c.same("search interval of phi", 0 <= lo[0] <= 1e-3 and 0.999 <= lo[1] <= 1, True)
            c.same("search interval of rho", -1 <= lr[0] <= -0.99 and 0.99 <= lr[1] <= 1, True)
            t = c.scalar("any", 0.1, 0.9)
            c.eq("objective of phi given the rho and coefficients of the step before", val(p(t)), phi_clik(c, D, n, T, W, ys, xs, t, st["rho"], st["b"]))
            c.eq("phi of this step is its minimiser", o.phi, vp)
            Y, X, WY, Q, e0, e1 = re_parts(c, D, ys, xs, W, o.phi, T, n)
            c.eq("objective of rho at the phi of this step", val(r(t)), lag_clik(c, n, T, W, t, e0, e1))
            c.eq("rho of this step is its minimiser", o.rho, vr)
            c.eq("coefficients of this step", L["b"], Q @ (X.T @ (Y - o.rho * WY)))
            c.eq("change of phi", L["converge"], c.np.abs(st["phi"] - o.phi))
            c.eq("iteration count", L["i"], st["i"] + 1)
            c.eq("quasi-demeaned y", o.y, Y)
            c.eq("quasi-demeaned x", o.x, X)
            for nm, v in (("e0", e0), ("e1", e1), ("xtx", X.T @ X)):
                if nm in L:
                    c.eq("state after this step: " + nm, L[nm], v)
        c.loop(base + ".__init__", enter, back)
    o = blank(c.func(cl))
    if not c.symbolic:
        c.assume(np.linalg.cond(x) < 1e3)
    c.func(base).__init__(o, y, x, w)
    phi, r = o.phi, o.rho
    if c.symbolic:
        c.true("at least one step", not st["first"])
    Y, X, WY, Q, e0, e1 = re_parts(c, D, ys, xs, W, phi, T, n)
    c.eq("quasi-demeaned y", o.y, Y)
    c.eq("quasi-demeaned x", o.x, X)
    b = Q @ (X.T @ (Y - r * WY))
    c.eq("betas, rho and phi", o.betas, c.np.vstack((b, c.np.array([[r]]), c.np.array([[phi]]))), tol=1e-6)
    u = Y - r * WY - X @ b
    c.eq("u = (I - rho W) y - X b", o.u, u)
    c.eq("predy", o.predy, Y - u)
    s2 = (u.T @ u)[0, 0] / (n * T)
    c.eq("sig2 = u'u/nT", o.sig2, s2)
    c.eq("log-likelihood at the estimates", o.logll,
         -(n * T) / 2 * c.np.log(2 * c.np.pi) - n * T / 2 * c.np.log(s2) - n * T / 2 + T * c.logdet(c.eye(n) - r * W) + n / 2 * c.np.log(phi ** 2), tol=1e-7)
    if c.symbolic:
        c.eq("predy_e: W", c.dense(rec[0][0]), c.np.kron(c.eye(T), W))
        c.eq("predy_e: X b", rec[0][1], X @ b)
        c.eq("predy_e: rho", rec[0][2], r)
        if c.np.abs(st["prev"] - phi) > 1e-7:
            c.true("stops only at convergence or after the allowed iterations", st["i"] >= 100)
    elif abs(r) < 0.9:
        pe = np.linalg.solve(np.eye(n * T) - r * np.kron(np.eye(T), W), X @ b)
        c.eq("predy_e = (I - rho W)^-1 X b", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
    c.eq("e_pred", o.e_pred, Y - o.predy_e)
    c.eq("t", o.t, T)
    c.eq("n is the number of observations", o.n, n * T)
    c.frame("inputs unchanged", y, x)


def re_w(c, kind):
    """symmetric weights whose row sums are one (a ring with k neighbours on each side), or symmetric with arbitrary positive values."""
    import libpysal
    n = c.dim("n", 8, 20)
    if c.symbolic:
        return n, c.weights("Ws", n, "sym")
    h = int(c.rng.randint(1, 3))
    nb = {i: [(i + s) % n for d in range(1, h + 1) for s in (-d, d)] for i in range(n)}
    if kind == "ring":
        w = libpysal.weights.W(nb, silence_warnings=True)
        w.transform = "r"
    else:
        v = c.rng.uniform(0.2, 1, (n, n))
        v = (v + v.T) / (2.2 * h)
        w = libpysal.weights.W(nb, {i: [v[i, j] / 2.2 for j in nb[i]] for i in nb}, silence_warnings=True)
    c.inputs["W"] = w
    c.copies["W"] = w.sparse.toarray().copy()
    return n, w


def re_dev(c, T, W, ys, xs, lam, P):
    """data times the inverse square root of the error covariance: (I - lam W)(a_t - mean) + P mean."""
    out = []
    for a in (ys, xs):
        m = bar(a)
        d = [b - m for b in a]
        out.append(c.np.vstack([b - lam * (W @ b) + P @ m for b in d]))
    return out


def re_clik(c, n, T, W, ys, xs, lam, phi, ev, V):
    cv = T * phi ** 2 + 1 / (1 - lam * ev) ** 2
    F, G = re_dev(c, T, W, ys, xs, lam, c.np.diag(cv ** (-0.5)) @ V.T)
    g = G.T @ F
    ee = (F.T @ F - g.T @ (c.inv(G.T @ G) @ g))[0, 0]
    return n * T / 2 * c.np.log(ee / (n * T)) + c.np.log(1 + T * phi ** 2 * (1 - lam * ev) ** 2).sum() / 2 - T * c.np.log(1 - lam * ev).sum()


@contract("C19", [RE + "err_c_loglik_ord", P + "BaseML_ErrorRE.err_c_loglik_ord"], cases=[dict(f=f, T=t) for f in (RE + "err_c_loglik_ord", P + "BaseML_ErrorRE.err_c_loglik_ord") for t in (2, 3)],
          symcases=[dict(f=f, T=2) for f in (RE + "err_c_loglik_ord", P + "BaseML_ErrorRE.err_c_loglik_ord")], draws=4, timeout=150, note="eigenvalues and eigenvectors of W as given by the caller (trusted: numpy.linalg)")
def re_err_loglik(c, f, T):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T)
    lam, phi = c.scalar("lam", -0.9, 0.9), c.scalar("phi", 0.05, 2)
    if c.symbolic:
        ev, V = c.np.linalg.eigh(W)
    else:
        S = (W + W.T) / 2
        ev, V = np.linalg.eigh(S / np.abs(np.linalg.eigvalsh(S)).max())
    ym, xm = bar(ys), bar(xs)
    many = (lambda b: c.np.vstack([b] * T)) if f.startswith(RE) else (lambda b: b)
    I = c.eye(n)
    v = owner(c, f)((lam, phi), ev, V, n, T, y, x, at(c, T, n, W, ys), at(c, T, n, W, xs), many(ym), many(xm), I, w.sparse)
    ref = re_clik(c, n, T, W, ys, xs, lam, phi, ev, V)
    c.eq("negative concentrated log-likelihood", v, ref)


@contract("C19", [RE + "BasePanel_RE_Error.__init__", P + "BaseML_ErrorRE.__init__"], cases=[dict(cl=RE + "BasePanel_RE_Error", W="ring"), dict(cl=RE + "BasePanel_RE_Error", W="sym"), dict(cl=P + "BaseML_ErrorRE", W="sym")],
          draws=6, timeout=200, note="eigenvalues and eigenvectors are trusted (numpy.linalg); minimize returns a minimiser of the objective it is given")
def base_re_error(c, cl, W):
    T = 2 if c.symbolic else int(c.rng.randint(2, 5))
    old = cl.startswith(RE)
    n, w = re_w(c, W)
    n, k, ys, xs, y, x = layout(c, T, n=n, k=1 if c.symbolic and not old else None)
    M = c.wd(w)
    if c.symbolic:
        from ..shims import OptRes
        opt = []
        two = [c.scalar("vlam", -1, 1), c.scalar("vphi", 0, 1)]

        def stub(fun, x0, args=(), bounds=None, method=None, **kw):
            opt.append((fun, args, bounds))
            return OptRes(two, fun(two, *args))
        c.stub(cl.split(":")[0] + ":minimize", stub)
    else:
        c.assume(np.linalg.cond(x) < 1e3)
    o = c.func(cl)(y, x, w)
    lam, phi2 = o.lam, o.phi ** 2 if old else o.phi
    I, B = c.eye(n), c.eye(n) - o.lam * M
    if c.symbolic:
        c.same("one optimisation", len(opt), 1)
        fun, args, bnd = opt[0]
        c.same("search interval of lambda", -1 <= bnd[0][0] <= -0.99 and 0.99 <= bnd[0][1] <= 1, True)
        ev, V = c.np.linalg.eigh(M)
        t = [c.scalar("tl", -0.9, 0.9), c.scalar("tp", 0.1, 2)]
        c.eq("objective at any point", fun(t, *args), re_clik(c, n, T, M, ys, xs, t[0], t[1], ev, V))
        c.eq("lambda is the minimiser", lam, two[0])
        c.eq("phi is the minimiser", phi2, two[1] ** 2)
        if old:
            Pm = c.np.diag((T * phi2 + 1 / (1 - lam * ev) ** 2) ** (-0.5)) @ V.T
        else:
            e2, V2 = c.np.linalg.eigh(T * phi2 * I + c.inv(B.T @ B))
            Pm = V2 @ (c.np.diag(e2 ** (-0.5)) @ V2.T)
        F, G = re_dev(c, T, M, ys, xs, lam, Pm)
    else:
        e2, V2 = np.linalg.eigh(T * phi2 * I + np.linalg.inv(B.T @ B))
        F, G = re_dev(c, T, M, ys, xs, lam, V2 @ np.diag(e2 ** -0.5) @ V2.T)
    Q = c.inv(G.T @ G)
    b = Q @ (G.T @ F)
    e = F - G @ b
    s2 = (e.T @ e)[0, 0] / (n * T)
    c.eq("betas: generalised least squares at the reported lambda and phi; lambda; sigma2_u", o.betas, c.np.vstack((b, c.np.array([[lam], [phi2 * s2]]))), tol=1e-6)
    c.eq("sig2", o.sig2, s2)
    c.eq("sig2_u = phi2 sig2", o.sig2_u, phi2 * s2)
    c.eq("u = y - X b", o.u, y - x @ b)
    c.eq("predy = X b", o.predy, x @ b)
    if c.symbolic:
        c.eq("e_filtered", o.e_filtered, e)
        c.eq("log-likelihood: constants and the objective at its minimum", o.logll,
             -re_clik(c, n, T, M, ys, xs, two[0], two[1], ev, V) - n * T / 2 * c.np.log(2 * c.np.pi) - n * T / 2)
        c.eq("covariance of the coefficients", o.vm[:k, :k], s2 * Q)
    else:
        c.eq("length of e_filtered", (o.e_filtered.T @ o.e_filtered)[0, 0], (e.T @ e)[0, 0])
        c.eq("covariance of the coefficients", o.vm[:k, :k], s2 * Q, tol=1e-5)
        f = lambda l, p: re_ll(T, M, y, x, l, p)
        ll = f(lam, phi2)
        c.eq("log-likelihood at the estimates", o.logll, ll, tol=1e-6)
        for l, p in [(lam + d, phi2) for d in (-0.02, 0.02, -0.1, 0.1)] + [(lam, phi2 * d) for d in (0.8, 1.2)]:
            if abs(l) < 0.98:
                c.ge0("maximum of the likelihood", ll - f(l, p) + 1e-4 * (1 + abs(ll)))
    c.eq("t", o.t, T)
    c.eq("n is the number of observations", o.n, n * T)
    c.frame("inputs unchanged", y, x)


def re_ll(T, W, y, x, lam, phi2):
    n = len(W)
    B = np.eye(n) - lam * W
    J = np.ones((T, T)) / T
    Si = np.kron(J, np.linalg.inv(T * phi2 * np.eye(n) + np.linalg.inv(B.T @ B))) + np.kron(np.eye(T) - J, B.T @ B)
    u = y - x @ np.linalg.solve(x.T @ Si @ x, x.T @ Si @ y)
    s2 = (u.T @ Si @ u).item() / (n * T)
    return -n * T / 2 * (np.log(2 * np.pi * s2) + 1) + np.linalg.slogdet(Si)[1] / 2


@contract("C19", [U + "check_panel"], cases=[dict(T=t, lay=l, k=k) for t in (2, 3) for l in ("wide", "long") for k in (1, 2, 3)], draws=4)
def layouts(c, T, lay, k):
    """wide (n x T, n x kT) and long (nT x 1, nT x k) input both become the same stacked arrays, period by period."""
    n = c.dim("n", 6, 20)
    w = c.weights("W", n, "row")
    ys = [c.array("y%d" % t, n, 1) for t in range(T)]
    xs = [[c.array("x%d_%d" % (j, t), n, 1) for t in range(T)] for j in range(k)]
    np_ = c.np
    Y = np_.vstack(ys)
    X = np_.hstack([np_.vstack(a) for a in xs])
    if lay == "wide":
        y, x = np_.hstack(ys), np_.hstack([b for a in xs for b in a])
    else:
        y, x = Y, X
    ny = ["dep%d" % t for t in range(T)] if lay == "wide" else "dep"
    nx = ["%s%d" % (v, t) for v in ("aa", "bb", "cc")[:k] for t in range(T)] if lay == "wide" else ["aa", "bb", "cc"][:k]
    by, bx, my, mx, t, warn = c.func(U + "check_panel")(y, x, w, ny, nx)
    c.eq("stacked y", by, Y)
    c.eq("stacked x", bx, X)
    c.same("number of periods", int(t), T)
    c.same("names without the period", (my, list(mx)), ("dep", ["aa", "bb", "cc"][:k]))
    c.same("layout announced", lay in warn, True)
    c.frame("inputs unchanged", *(ys + [b for a in xs for b in a]))


def long_of(d):
    return d.Y.reshape(-1, 1, order="F"), np.hstack([a.reshape(-1, 1, order="F") for a in d.xs])


ML = {"Panel_FE_Lag": "FE Lag", "ML_LagFE": "FE Lag", "Panel_FE_Error": "FE Error", "ML_ErrorFE": "FE Error", "Panel_RE_Lag": "RE Lag", "ML_LagRE": "RE Lag",
      "Panel_RE_Error": "RE Error", "ML_ErrorRE": "RE Error"}


def ll_lag(Y, X, W, WW, T, r, phi=None):
    z = Y - r * WW @ Y
    e = z - X @ np.linalg.lstsq(X, z, rcond=None)[0]
    n = len(W)
    s2 = (e.T @ e).item() / len(e)
    return -len(e) / 2 * (np.log(2 * np.pi * s2) + 1) + T * np.linalg.slogdet(np.eye(n) - r * W)[1] + (n / 2 * np.log(phi ** 2) if phi is not None else 0)


def ll_err(Y, X, W, WW, T, r):
    z, G = Y - r * WW @ Y, X - r * WW @ X
    e = z - G @ np.linalg.lstsq(G, z, rcond=None)[0]
    n = len(W)
    s2 = (e.T @ e).item() / len(e)
    return -len(e) / 2 * (np.log(2 * np.pi * s2) + 1) + T * np.linalg.slogdet(np.eye(n) - r * W)[1]


@contract("C19", ["panel_fe:Panel_FE_Lag.__init__", "panel_fe:Panel_FE_Error.__init__", "panel_re:Panel_RE_Lag.__init__", "panel_re:Panel_RE_Error.__init__",
                  P + "ML_LagFE.__init__", P + "ML_ErrorFE.__init__", P + "ML_LagRE.__init__", P + "ML_ErrorRE.__init__", "panel_utils:prepare_panel"],
          cases=[dict(kind=k, lay=l) for k in ML for l in ("wide", "long")], sym=False, draws=3, timeout=120, bounded="random balanced panels n<=30, T<=5")
def classes(c, kind, lay):
    """the public class on either layout reports the model's values for the stacked data (with a constant, lags of X and names where due)."""
    kind, d, kw = zoo.panel_args(c, kind)
    m = ML[kind]
    if m == "RE Error":
        n, w = re_w(c, "ring" if kind.startswith("Panel") else "sym")
        d.n, d.w, d.W = n, w, c.wd(w)
        d.xs = [a[:n] for a in d.xs]
        d.Y = d.Y[:n]
        c.assume(len(d.Y) == n and n > d.k * d.T)
        kw.update(y=d.Y, x=np.hstack(d.xs), w=w)
    n, T, k, W = d.n, d.T, d.k, d.W
    y, x = long_of(d)
    N = n * T
    WW = np.kron(np.eye(T), W)
    slx = 0
    if not kind.startswith("Panel"):
        slx = zoo.pick(c, 0, 0, 1, 2)
        kw["slx_lags"] = slx
    base = ["aa", "bb", "cc"][:k]
    names = list(base)
    xx = x
    lag = x
    for i in range(slx):
        lag = WW @ lag
        xx = np.hstack([xx, lag])
        names += ["W%s_%s" % ("" if i == 0 else str(i + 1), v) for v in base]
    if lay == "long":
        kw.update(y=y.copy(), x=x.copy(), name_y=zoo.pick(c, "dep", ["dep"]), name_x=list(base))
    else:
        kw["name_x"] = ["%s%d" % (v, t) for v in base for t in range(T)]
    x1 = np.hstack([np.ones((N, 1)), xx])
    c.assume(np.linalg.cond(x1) < 500)
    o = zoo.build(c, kind, kw)
    b = np.asarray(o.betas)
    J = np.kron(np.ones((T, T)) / T, np.eye(n))
    s = lambda v: float(np.asarray(v).ravel()[0].real)
    kx = xx.shape[1] + (m.startswith("RE"))
    if m == "RE Error":
        lam, phi2 = s(o.lam), s(o.phi) ** 2 if kind.startswith("Panel") else s(o.phi)
        B = np.eye(n) - lam * W
        Si = np.kron(np.ones((T, T)) / T, np.linalg.inv(T * phi2 * np.eye(n) + np.linalg.inv(B.T @ B))) + np.kron(np.eye(T) - np.ones((T, T)) / T, B.T @ B)
        bb = np.linalg.solve(x1.T @ Si @ x1, x1.T @ Si @ y)
        u = y - x1 @ bb
        s2 = (u.T @ Si @ u).item() / N
        ref = np.vstack([bb, [[lam], [phi2 * s2]]])
        f = lambda r: re_ll(T, W, y, x1, r, phi2)
        tail = ["lambda", "sig2_u" if kind.startswith("Panel") else "sigma2_u"]
        pred = x1 @ bb
    else:
        phi = s(o.phi) if m.startswith("RE") else 0
        Q = np.eye(N) - (1 - phi) * J
        Y, X = Q @ y, Q @ (x1 if m.startswith("RE") else xx)
        if m.endswith("Lag"):
            lam = s(o.rho)
            z = Y - lam * WW @ Y
            bb = np.linalg.lstsq(X, z, rcond=None)[0]
            u = z - X @ bb
            e = u
            ref = np.vstack([bb, [[lam]]] + ([[[phi]]] if m.startswith("RE") else []))
            f = lambda r: ll_lag(Y, X, W, WW, T, r, phi if m.startswith("RE") else None)
            tail = ["W_dep"] + (["phi"] if m.startswith("RE") else [])
        else:
            lam = s(o.lam)
            G = X - lam * WW @ X
            z = Y - lam * WW @ Y
            bb = np.linalg.lstsq(G, z, rcond=None)[0]
            u = Y - X @ bb
            e = z - G @ bb
            ref = np.vstack([bb, [[lam]]])
            f = lambda r: ll_err(Y, X, W, WW, T, r)
            tail = ["lambda"]
        s2 = (e.T @ e).item() / N
        pred = Y - u
    c.eq("coefficients", b, ref, tol=1e-5)
    c.eq("residuals", o.u, u, tol=1e-5)
    c.eq("predicted values", o.predy, pred, tol=1e-5)
    c.eq("sig2", s(o.sig2), s2, tol=1e-5)
    ll = f(lam)
    c.eq("log-likelihood", s(o.logll), ll, tol=1e-6)
    for q in [lam + v for v in (-0.2, -0.05, -0.01, 0.01, 0.05, 0.2)]:
        if abs(q) < 0.985:
            c.ge0("the coefficient maximises the concentrated likelihood", ll - f(q) + 1e-5 * (1 + abs(ll)))
    c.eq("number of observations", int(o.n), N)
    c.eq("number of periods", int(o.t), T)
    c.eq("Akaike criterion", s(o.aic), 2 * o.k - 2 * s(o.logll))
    c.eq("Schwarz criterion", s(o.schwarz), o.k * np.log(N) - 2 * s(o.logll))
    c.same("names", list(o.name_x), (["CONSTANT"] if m.startswith("RE") else []) + names + tail)
    c.same("dependent variable", o.name_y, "dep")
    c.frame_all("inputs unchanged")


@contract("C19", ["panel_re:BasePanel_RE_Error.__init__", P + "BaseML_ErrorRE.__init__"], cases=[dict(kind=k) for k in ("Panel_RE_Error", "ML_ErrorRE")],
          sym=False, num=True, draws=3, bounded="random balanced panels, row-standardised weights")
def re_error_class(c, kind):
    """weights that are not symmetric."""
    kind, d, kw = zoo.panel_args(c, kind)
    y, x = long_of(d)
    x1 = np.hstack([np.ones((len(y), 1)), x])
    try:
        o = zoo.build(c, kind, kw)
    except Exception as e:
        c.true("optimum", False, "estimation fails: %s" % e)
        return
    lam, phi2 = float(np.real(o.lam)), float(np.real(o.phi)) ** (2 if kind.startswith("Panel") else 1)
    ll = re_ll(d.T, d.W, y, x1, lam, phi2)
    c.true("optimum", abs(complex(np.asarray(o.logll).ravel()[0]) - ll) < 1e-5 * (1 + abs(ll)), "reported log-likelihood is not the model's value")


@contract("C19", [P + "PanelFE.__init__", P + "PanelRE.__init__", P + "PooledOLS.__init__"], cases=[dict(kind=k) for k in ("PanelFE", "PanelRE", "PooledOLS")],
          sym=False, draws=4, bounded="random balanced panels n<=30, T<=5")
def nonspatial(c, kind):
    """one-way panel models without spatial effects: within, quasi-demeaned and pooled least squares."""
    kind, d, kw = zoo.panel_args(c, kind)
    n, T, k = d.n, d.T, d.k
    y, x = long_of(d)
    if kind == "PooledOLS":
        kw["spat_diag"] = zoo.flip(c)
        kw["robust"] = zoo.pick(c, None, "white")
    o = zoo.build(c, kind, kw)
    N = n * T
    J = np.kron(np.ones((T, T)) / T, np.eye(n))
    x1 = np.hstack([np.ones((N, 1)), x])
    if kind == "PooledOLS":
        b = np.linalg.lstsq(x1, y, rcond=None)[0]
        c.eq("pooled least squares", o.betas, b)
        e = y - x1 @ b
        c.eq("residuals", o.u, e)
        XX = np.linalg.inv(x1.T @ x1)
        c.eq("pooled error variance", o.sig2, (e.T @ e).item() / (N - k - 1))
        c.eq("pooled covariance", o.vm, N / (N - k - 1) * XX @ (x1.T @ (x1 * e ** 2)) @ XX if kw["robust"] else (e.T @ e).item() / (N - k - 1) * XX, tol=1e-6)
        return
    yd, xd = y - J @ y, x - J @ x
    bw = np.linalg.lstsq(xd, yd, rcond=None)[0]
    ew = yd - xd @ bw
    if kind == "PanelFE":
        c.eq("within estimator", o.betas, bw)
        c.eq("fixed effects: unit means of y - X b", o.fixed_effects, (J @ (y - x @ bw))[:n])
        c.eq("mean fixed effect", o.mean_mu_i, (y - x @ bw).mean())
        rss = (ew.T @ ew).item()
        c.eq("residuals about the mean effect", o.u, y - x @ bw)
        c.true("within error variance: residual sum over the observations net of the effects", abs(o.sig2 * (N - n) - rss) < 1e-6 * rss or abs(o.sig2 * (N - n - k) - rss) < 1e-6 * rss)
        c.eq("within covariance", o.vm, o.sig2 * np.linalg.inv(xd.T @ xd), tol=1e-6)
        c.eq("within standard errors", o.std_err, np.sqrt(np.diag(o.vm)), tol=1e-6)
        return
    se = (ew.T @ ew).item() / (N - n - k)
    eb = (J @ y)[:n] - (J @ x1)[:n] @ np.linalg.lstsq((J @ x1)[:n], (J @ y)[:n], rcond=None)[0]
    sb = (eb.T @ eb).item() / (n - k - 1)
    smu = max(sb - se / T, 0)
    th = 1 - np.sqrt(se / (se + T * smu))
    c.eq("idiosyncratic variance from the within residuals", o.sigma2_epsilon, se)
    c.eq("unit variance from the between residuals", o.sigma2_mu, smu, scale=se)
    c.eq("theta", o.theta, th, scale=1)
    ys, xs = y - th * J @ y, x1 - th * J @ x1
    b = np.linalg.lstsq(xs, ys, rcond=None)[0]
    c.eq("least squares on quasi-demeaned data", o.betas, b, tol=1e-6)
    c.eq("residuals", o.u, y - x1 @ b, tol=1e-6)
    es = ys - xs @ b
    rss = (es.T @ es).item()
    s2 = float(np.asarray(o.sig2).ravel()[0])
    c.true("quasi-demeaned error variance", abs(s2 * N - rss) < 1e-6 * rss or abs(s2 * (N - k - 1) - rss) < 1e-6 * rss)
    c.eq("covariance on quasi-demeaned data", o.vm, s2 * np.linalg.inv(xs.T @ xs), tol=1e-6)
    v = se * np.linalg.inv(xd.T @ xd) - o.vm[1:, 1:]
    db = bw - b[1:]
    c.assume(np.linalg.cond(v) < 1e8)
    c.eq("Hausman statistic", o.hausman_stat, (db.T @ np.linalg.inv(v) @ db).item(), tol=1e-4)
    c.eq("Hausman p-value", o.hausman_p, c.chi2sf(o.hausman_stat, k), tol=1e-6, scale=1e-9)


@contract("C19", [RE + "BasePanel_RE_Lag.__init__", P + "BaseML_LagRE.__init__"], cases=[dict(cl=f) for f in (RE + "BasePanel_RE_Lag", P + "ML_LagRE")], sym=False, draws=6,
          bounded="random balanced panels n<=25, T<=5")
def re_lag_information(c, cl):
    """the covariance of the random effects lag model is the inverse of the model's information about coefficients, rho, the weight phi and sig2."""
    T = int(c.rng.randint(2, 6))
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T)
    c.assume(np.linalg.cond(x) < 1e3)
    o = blank(c.func(cl))
    c.func(cl if cl.startswith(RE) else P + "BaseML_LagRE").__init__(o, y, x, w)
    r, phi, s2 = o.rho, o.phi, val(o.sig2)
    c.assume(abs(r) < 0.95)
    G, bb, br, z, rr, rs, ss = panel_lag_info(c, n, T, W, demeaned(c, xs, phi), r, s2, o.betas[:k])
    V = np.linalg.inv(o.vm1)
    keep = [i for i in range(k + 3) if i != k + 1]
    c.eq("information: coefficients, rho and sig2", V[np.ix_(keep, keep)], stack_info(c, [[bb, br, z], [br.T, one(c, rr), one(c, rs)], [z.T, one(c, rs), one(c, ss)]]), tol=1e-5)
    c.eq("information: coefficients and phi are independent", V[:k, k + 1], np.zeros(k), tol=1e-6, scale=abs(V).max())
    c.eq("vm: leading block of the inverse", o.vm, o.vm1[:-1, :-1])
    g = np.array([-2 / phi * np.trace(G), 2 * n / phi ** 2, -n / (phi * s2)])
    c.eq("information: the weight phi", np.vstack((V[k + 1, k:], V[k:, k + 1])), np.vstack((g, g)), tol=1e-5)


@contract("C19", [RE + "BasePanel_RE_Error.__init__", P + "BaseML_ErrorRE.__init__"], cases=[dict(cl=RE + "BasePanel_RE_Error"), dict(cl=P + "BaseML_ErrorRE")], sym=False, draws=6,
          bounded="random balanced panels n<=20, T<=5, symmetric weights")
def re_error_information(c, cl):
    """the covariance of the random effects error model is the inverse of the model's information."""
    T = int(c.rng.randint(2, 6))
    n, w = re_w(c, "sym")
    n, k, ys, xs, y, x = layout(c, T, n=n)
    W = c.wd(w)
    c.assume(np.linalg.cond(x) < 1e3)
    o = c.func(cl)(y, x, w)
    lam, s2, su = o.lam, val(o.sig2), val(o.sig2_u)
    c.assume(abs(lam) < 0.95 and su > 1e-3 * s2)
    c.eq("covariance of the coefficients", o.vm[:k, :k], o.varb if hasattr(o, "varb") else o.vm[:k, :k])
    c.eq("coefficients are independent of lambda and the variance", o.vm[:k, k:], np.zeros((k, 2)))
    B = np.eye(n) - lam * W
    Bi = np.linalg.inv(B.T @ B)
    I, J = np.eye(T), np.ones((T, T))
    S = su * np.kron(J, np.eye(n)) + s2 * np.kron(I, Bi)
    d = [np.linalg.solve(S, a) for a in (s2 * np.kron(I, Bi @ (W.T @ B + B.T @ W) @ Bi), np.kron(J, np.eye(n)), np.kron(I, Bi))]
    inf = np.array([[np.trace(a @ b) / 2 for b in d] for a in d])
    c.eq("covariance of lambda and the variance of the effects", o.vm[k:, k:], np.linalg.inv(inf)[:2, :2], tol=1e-3)


@contract("C19", [P + "PanelFE.__init__", P + "PanelRE.__init__", P + "PooledOLS.__init__"], cases=[dict(kind=k) for k in ("PanelFE", "PanelRE", "PooledOLS")],
          sym=False, draws=3, bounded="random balanced panels n<=30, T<=5, printed digits")
def printed(c, kind):
    """the summary prints the components, tests and dimensions of the panel under their names."""
    kind, d, kw = zoo.panel_args(c, kind)
    if kind != "PanelFE":
        kw["spat_diag"] = True
    o = zoo.build(c, kind, kw)
    s = o.summary
    P_ = lambda label, *v: K.printed(c, s, label, *v)
    y, x = long_of(d)
    P_("Mean dependent var", y.mean())
    P_("S.D. dependent var", y.std(ddof=1))
    if kind == "PanelFE":
        P_("Fixed-effects mean", o.fixed_effects.mean())
        return
    for i in range(len(o.bsk)):
        r = o.bsk.iloc[i]
        P_(r["Test"].strip(), r["df"], r["Statistic"], r["p-value"])
    if kind == "PanelRE":
        P_("Sigma2_epsilon (Idiosyncratic)", o.sigma2_epsilon)
        P_("Sigma2_mu (Individual)", o.sigma2_mu)
        P_("Theta (Quasi-demeaning weight)", o.theta)
        P_("Hausman Specification Test", d.k, o.hausman_stat, o.hausman_p)


ML_PANELS = ["Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorRE", "ML_ErrorPooled"]


@contract("C19", ["summary_output:Panel_FE_Lag", "summary_output:Panel_FE_Error", "output:_nonspat_top"], cases=[dict(kind=k) for k in ML_PANELS],
          sym=False, draws=2, bounded="random balanced panels n<=30, T<=5, printed digits")
def printed_ml(c, kind):
    """the likelihood, variance and information criteria printed are the model's."""
    kind, d, kw = zoo.panel_args(c, kind)
    kw["vm"] = True
    o = zoo.build(c, kind, kw)
    for label, v in (("Log likelihood", o.logll), ("Sigma-square ML", o.sig2), ("S.E of regression", np.sqrt(o.sig2)), ("Akaike info criterion", o.aic),
                     ("Schwarz criterion", o.schwarz), ("Pseudo R-squared", o.pr2), ("Mean dependent var", o.mean_y), ("S.D. dependent var", o.std_y)):
        if label in o.summary or kind != "ML_ErrorRE":     # its summary prints no likelihood
            K.printed(c, o.summary, label, np.real(v))


# ------------------------------------------------------------------ public constructors (panel.py), for all n and values
def panel_data(c, T, k, const, kwx=0):
    """what prepare_panel (own contracts: C03 lags, C19 layouts, C21 checks) hands over: long data, names, weights."""
    n = c.dim("n", 8, 25)
    ys = [c.array("y%d" % t, n, 1) for t in range(T)]
    xs = [c.array("x%d" % t, n, k + kwx) for t in range(T)]
    if const:
        xs = [c.np.hstack((c.np.ones((n, 1)), x)) for x in xs]
    w = c.weights("W", n, "row")
    y, x = c.np.vstack(ys), c.np.vstack(xs)
    names = (["CONSTANT"] if const else []) + ["x%d" % i for i in range(k)] + ["W_x%d" % i for i in range(kwx)]
    got = []

    def prepare(y_, x_, w_, name_y, name_x, slx_lags, slx_vars, title, add_constant=True):
        got.append((y_, x_, w_, name_y, name_x, slx_lags, slx_vars, add_constant))
        return y, x, "dep", list(names), w, [None, None], slx_lags, title, k + int(const), kwx, T
    c.stub("panel_utils:prepare_panel", prepare)
    outs = []
    import inspect
    sig = inspect.signature(c.mod("output").__dict__["output"])

    def printed_(*a, **z):
        outs.append(dict(sig.bind(*a, **z).arguments))
    c.stub("output:output", printed_)
    for f in ("_nonspat_top", "_nonspat_mid", "_summary_iteration"):
        c.stub("output:" + f, lambda *a, **z: "")
    c.stub("output:_summary_impacts", lambda *a, **z: ({}, ""))
    for f in ("akaike", "schwarz"):
        c.stub("diagnostics:" + f, lambda reg=None, f=f: f)
    given = [K.Mark(m) for m in ("y", "x", "w", "name_y", "name_x", "slx_lags", "slx_vars")]
    kw = dict(zip(("y", "x", "w", "name_y", "name_x", "slx_vars"), [g for g in given if g.name != "slx_lags"]))
    kw.update(slx_lags=1 if kwx else 0, name_ds="ds", name_w="wfile", vm=K.Mark("vm"), latex=K.Mark("latex"))

    def handed():
        c.structure(len(got) == 1, "calls of prepare_panel")
        a = got[0]
        c.true("the data given are prepared", all(u is kw[m] for u, m in zip(a, ("y", "x", "w", "name_y", "name_x"))) and a[5] == kw["slx_lags"] and a[6] is kw["slx_vars"])
        c.true("with a constant iff the model has one", bool(a[7]) == const)

    def published(o, tail, tailtypes):
        c.same("names of the coefficients", list(o.name_x), names + tail)
        c.structure(len(outs) == 1, "calls of output")
        c.true("printed with the options given", outs[0].get("vm") is kw["vm"] and outs[0].get("latex") is kw["latex"] and outs[0]["reg"] is o)
        c.same("periods", int(o.t), T)
        vt = list(o.output["var_type"])
        vt = ["x" if not const and i == 0 and v == "o" else v for i, v in enumerate(vt)]        # ML_ErrorFE calls its first regressor 'o': no effect
        c.same("types of the coefficients", vt, (["o"] if const else []) + ["x"] * k + ["wx"] * kwx + tailtypes)
    return n, ys, xs, y, x, w, kw, handed, published


MLC = [("ML_LagFE", False, ["W_dep"], ["rho"]), ("ML_ErrorFE", False, ["lambda"], ["lambda"]), ("ML_LagRE", True, ["W_dep", "phi"], ["rho", "phi"]),
       ("ML_ErrorRE", True, ["lambda", "sigma2_u"], ["lambda", "sigma2_u"])]


def panel_constructor(c, kind, const, tail, types, T, slx, opts=("epsilon",), extra=None, crit=True):
    """the class hands the prepared data, the weights and the options to its base class, publishes its results, and reports the unit means of y - X b."""
    import inspect
    k = 2
    n, ys, xs, y, x, w, kw, handed, published = panel_data(c, T, k, const, slx)
    kw.update({o_: K.Mark(o_) for o_ in opts}, **(extra or {}))
    m = c.mod("panel")
    B = getattr(m, "Base" + kind)
    pos = list(inspect.signature(B.__init__).parameters)[1:]
    got, R = [], {}

    def init(self, *a, **z):
        z = dict(zip(pos, a), **z)
        got.append(z)
        self.n, self.t = n, T
        q = k + slx + int(const) + len(tail)
        R["b"] = self.betas = c.array("b", q, 1)
        R["u"] = self.u = c.array("u", n * T, 1) if not c.symbolic else c.np.vstack([c.array("u%d" % t, n, 1) for t in range(T)])
        R["V"] = self.vm = c.array("V", q, q, symmetric=True)
        self.k, self.sig2, self.logll, self.rho = q, c.scalar("s2"), c.scalar("ll"), self.betas[-1, 0]
        self.predy = self.e_pred = self.predy_e = self.u
    c.stub("panel:Base%s.__init__" % kind, init)
    try:
        o = getattr(m, kind)(**kw)
    except (AttributeError, KeyError, TypeError) as e:
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    handed()
    c.structure(len(got) == 1, "not one call of the base class")
    g = got[0]
    c.eq("y handed over", g.get("y", g.get("bigy")), y)
    c.eq("X handed over", g.get("x", g.get("bigx")), x)
    c.true("weights and options handed over", g.get("w") is w and all(g.get(o_) is kw[o_] for o_ in opts))
    c.true("results published", o.betas is R["b"] and o.vm is R["V"] and o.u is R["u"])
    if crit:
        c.true("information criteria", (o.aic, o.schwarz) == ("akaike", "schwarz"))
    published(o, tail, types)
    if not const:
        b = R["b"][:-1]
        c.eq("unit means of y - X b", o.mu_i, bar([ys[t] - xs[t] @ b for t in range(T)]))
        c.eq("their mean", o.mean_mu_i, c.np.ones((1, n)) @ bar([ys[t] - xs[t] @ b for t in range(T)]) / n)
    c.frame("inputs unchanged", y, x)
    return o, w


@contract("C19", [P + m[0] + ".__init__" for m in MLC], num=False, draws=0, cases=[dict(kind=m[0], T=t, slx=s) for m in MLC for t, s in ((2, 0), (3, 1))],
          note="callees (prepare_panel, base class, printing) by their contracts")
def ml_constructor(c, kind, T, slx):
    _, const, tail, types = [m for m in MLC if m[0] == kind][0]
    panel_constructor(c, kind, const, tail, types, T, slx)


@contract("C19", [P + "PanelFE.__init__", "ols:BaseOLS.__init__"], num=False, draws=0, cases=[dict(T=2, k=1, slx=0), dict(T=2, k=1, slx=1), dict(T=2, k=2, slx=0), dict(T=3, k=1, slx=0)],
          note="prepare_panel and printing by their contracts; BaseOLS is the real code")
def within_constructor(c, T, k, slx):
    """within estimator, its covariance, the unit effects and residuals, for all n and values (T and k enumerated)."""
    n, ys, xs, y, x, w, kw, handed, published = panel_data(c, T, k, False, slx)
    try:
        o = c.mod("panel").PanelFE(**kw)
    except (AttributeError, KeyError, TypeError) as e:
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    handed()
    yd, xd = demeaned(c, ys), demeaned(c, xs)
    XX = sum((a.T @ a for a in xd[1:]), xd[0].T @ xd[0])
    Xy = sum((a.T @ b for a, b in zip(xd[1:], yd[1:])), xd[0].T @ yd[0])
    b = c.inv(XX) @ Xy
    c.eq("within estimator", o.betas, b)
    c.eq("fixed effects", o.fixed_effects, bar(ys) - bar(xs) @ o.betas)
    c.eq("residuals about the mean effect", o.u, y - x @ o.betas)
    c.eq("predictions", o.predy, x @ o.betas)
    c.eq("unit means", o.mu_i, bar([ys[t] - xs[t] @ o.betas for t in range(T)]))
    rs = [yd[t] - xd[t] @ o.betas for t in range(T)]
    rss = sum((r.T @ r for r in rs[1:]), rs[0].T @ rs[0])[0, 0]
    c.eq("within error variance", o.sig2 * (n * T - n), rss)
    c.eq("within covariance", o.vm, o.sig2 * c.inv(XX))
    c.same("periods", int(o.t), T)
    published(o, [], [])
    c.frame("inputs unchanged", y, x)


@contract("C19", [P + "PooledOLS.__init__"], num=False, draws=0, cases=[dict(T=2, slx=0), dict(T=3, slx=1)], note="prepare_panel, BaseOLS, BSK tests and printing by their contracts")
def pooled_constructor(c, T, slx):
    n, ys, xs, y, x, w, kw, handed, published = panel_data(c, T, 2, True, slx)
    kw["robust"], kw["spat_diag"] = "white", False
    got = []
    import inspect
    par = inspect.signature(c.mod("ols").BaseOLS.__init__).parameters
    pos = list(par)[1:]

    def init(self, *a, **z):
        got.append(dict(zip(pos, a), **z))
        self.n = n * T
    c.stub("ols:BaseOLS.__init__", init)
    try:
        o = c.mod("panel").PooledOLS(**kw)
    except (AttributeError, KeyError, TypeError) as e:
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    handed()
    c.structure(len(got) == 1, "not one call of BaseOLS")
    c.eq("y handed over", got[0]["y"], y)
    c.eq("X handed over", got[0]["x"], x)
    c.true("robust option and n - k variance", got[0].get("robust") == "white" and got[0].get("sig2n_k", par["sig2n_k"].default) is True)
    published(o, [], [])


@contract("C19", [P + "PanelRE.__init__"], num=False, draws=0, cases=[dict(T=2, k=1), dict(T=3, k=1)],
          note="prepare_panel, BaseOLS (C01), BSK tests and printing by their contracts; regressors that vary over time, for all n and values (T and k enumerated)")
def quasi_constructor(c, T, k):
    """variance components from the within and between residuals, least squares on quasi-demeaned data, its covariance, Hausman statistic."""
    n, ys, xs, y, x, w, kw, handed, published = panel_data(c, T, k, True, 0)
    kw["spat_diag"] = False
    got, R = [], {}
    import inspect
    par = inspect.signature(c.mod("ols").BaseOLS.__init__).parameters
    pos = list(par)[1:]

    def init(self, *a, **z):
        z = dict(zip(pos, a), **z)
        got.append(z)
        self.y, self.x, self.n, self.k = z["y"], z["x"], n * T, k + 1
        R["b"] = self.betas = c.array("b", k + 1, 1)
        R["u"] = self.u = c.np.vstack([c.array("u%d" % t, n, 1) for t in range(T)])
        R["XX"] = self.xtxi = c.array("XX", k + 1, k + 1, symmetric=True)
        R["s2"] = self.sig2 = c.scalar("s2", positive=True)
        self.sig2n = self.sig2
    c.stub("ols:BaseOLS.__init__", init)
    try:
        o = c.mod("panel").PanelRE(**kw)
    except (AttributeError, KeyError, TypeError) as e:
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    handed()
    published(o, [], [])
    cols = slice(1, None)
    df = int(o.hausman_df)
    c.same("periods", int(o.t), T)
    c.eq("residuals", o.u, y - x @ o.betas)
    tot = lambda a, b: sum((p.T @ q for p, q in zip(a[1:], b[1:])), a[0].T @ b[0])
    yd, xd = demeaned(c, ys), [v[:, cols] for v in demeaned(c, xs)]
    bw = c.inv(tot(xd, xd)) @ tot(xd, yd)
    ew = [a - b @ bw for a, b in zip(yd, xd)] if df else yd
    se = o.sigma2_epsilon
    c.eq("idiosyncratic variance from the within residuals", se * (n * T - n - df), tot(ew, ew)[0, 0])
    Xb, yb = bar(xs), bar(ys)
    eb = yb - Xb @ (c.inv(Xb.T @ Xb) @ (Xb.T @ yb))
    sb = (eb.T @ eb)[0, 0] / (n - k - 1)
    if isinstance(o.sigma2_mu, float):
        c.same("no unit variance where its estimate is negative", o.sigma2_mu, 0.0)
        c.ge0("the estimate is negative", se / T - sb)
    else:
        c.eq("unit variance from the between residuals", o.sigma2_mu, sb - se / T)
    th = o.theta
    c.eq("theta", th, 1 - c.np.sqrt(se / (se + T * o.sigma2_mu)))
    yq, xq = [a - th * yb for a in ys], [a - th * Xb for a in xs]
    c.structure(len(got) == 1, "not one call of BaseOLS")
    c.eq("quasi-demeaned y", got[0]["y"], c.np.vstack(yq))
    c.eq("quasi-demeaned X", got[0]["x"], c.np.vstack(xq))
    c.true("maximum likelihood divisor", not got[0].get("sig2n_k", par["sig2n_k"].default))
    c.eq("coefficients of the quasi-demeaned model", o.betas, R["b"])
    c.eq("their covariance", o.vm, R["s2"] * R["XX"])
    if df:
        v = se * c.inv(tot(xd, xd)) - o.vm[cols, cols]
        d = bw - o.betas[cols]
        h = (d.T @ c.inv(v) @ d)[0, 0]
        c.eq("Hausman statistic", o.hausman_stat, h)
        c.eq("Hausman p-value", o.hausman_p, c.chi2sf(o.hausman_stat, k))
    c.frame("inputs unchanged", y, x)
