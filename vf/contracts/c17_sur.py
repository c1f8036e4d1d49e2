"""C17: seemingly unrelated regressions and three stage least squares."""
import numpy as np

from ..engine import contract
from . import common as K, zoo

U = "sur_utils:"
D = "diagnostics_sur:"


def system(c, G, extra=(), lo=15, hi=40, kmax=3):
    """data of a G-equation system: dict of y (n x 1) and X (n x k_g)."""
    n = c.dim("n", lo, hi)
    X, y = {}, {}
    ks = []
    for g in range(G):
        k = c.dim("k%d" % g, 1, kmax)
        ks.append(k)
        X[g] = c.array("X%d" % g, n, k)
        y[g] = c.array("y%d" % g, n, 1)
    c.assume(n > sum(ks) + 2)
    return n, ks, y, X


def gls(c, y, X, Z, sigi):
    """system GLS: blocks s^{rt} Z_r'Z_t and sum_t s^{rt} Z_r'y_t."""
    G = len(y)
    A = c.np.vstack([c.np.hstack([(X[r].T @ X[t]) * sigi[r, t] for t in range(G)]) for r in range(G)])
    b = c.np.vstack([sum(((X[r].T @ y[t]) * sigi[r, t] for t in range(1, G)), (X[r].T @ y[0]) * sigi[r, 0]) for r in range(G)])
    return A, b


@contract("C17", [U + "sur_crossprod"], cases=[dict(G=g) for g in (2, 3)], draws=3)
def crossprod(c, G):
    n, ks, y, X = system(c, G)
    xx, xy = c.func(U + "sur_crossprod")(X, y)
    c.same("blocks", sorted(xx), [(r, t) for r in range(G) for t in range(G)])
    c.same("blocks of Xy", sorted(xy), [(r, t) for r in range(G) for t in range(G)])
    for r in range(G):
        for t in range(G):
            c.eq("X%d'X%d" % (r, t), xx[r, t], X[r].T @ X[t])
            c.eq("X%d'y%d" % (r, t), xy[r, t], X[r].T @ y[t])
    c.frame("inputs unchanged", *(list(X.values()) + list(y.values())))


@contract("C17", [U + "sur_est", U + "sur_mat2dict"], cases=[dict(G=g) for g in (2, 3)], draws=4, timeout=120)
def est(c, G):
    n, ks, y, X = system(c, G)
    E = c.array("E", n, G)
    xx, xy = {}, {}
    for r in range(G):
        for t in range(G):
            xx[r, t], xy[r, t] = X[r].T @ X[t], X[r].T @ y[t]
    if not c.symbolic:
        c.assume(all(np.linalg.cond(X[r]) < 1e3 for r in X) and np.linalg.cond(E) < 1e2)
    K_ = c.np.array([[k] for k in ks])
    b, V, S = c.func(U + "sur_est")(xx, xy, E, K_)
    c.eq("covariance = E'E/n", S, E.T @ E / n)
    A, r = gls(c, y, X, None, c.inv(S))
    c.eq("varb = inverse GLS normal matrix", V, c.inv(A), scale=1.0)
    c.eq("GLS normal equations", c.np.vstack([b[g] for g in range(G)]), c.inv(A) @ r, tol=1e-6)
    c.same("equations", sorted(b), list(range(G)))
    c.frame("inputs unchanged", E, *(list(X.values()) + list(y.values())))


@contract("C17", [U + "sur_resids", U + "sur_predict", U + "filter_dict", U + "sur_dict2mat", U + "sur_mat2dict"], cases=[dict(G=g) for g in (2, 3)], draws=3)
def helpers(c, G):
    n, ks, y, X = system(c, G)
    b = {g: c.array("b%d" % g, ks[g], 1) for g in range(G)}
    E = c.func(U + "sur_resids")(y, X, b)
    P = c.func(U + "sur_predict")(y, X, b)
    for g in range(G):
        c.eq("residuals of equation %d" % g, E[:, g:g + 1], y[g] - X[g] @ b[g])
        c.eq("predictions of equation %d" % g, P[:, g:g + 1], X[g] @ b[g])
    c.same("one column per equation", E.shape[1], G)
    XL = {g: c.array("L%d" % g, n, ks[g]) for g in range(G)}
    lam = c.array("lam", G, 1)
    F = c.func(U + "filter_dict")(lam, X, XL)
    for g in range(G):
        c.eq("filtered variables of equation %d" % g, F[g], X[g] - lam[g, 0] * XL[g])
    m = c.func(U + "sur_dict2mat")(b)
    c.eq("stacked", m, c.np.vstack([b[g] for g in range(G)]))
    d = c.func(U + "sur_mat2dict")(m, c.np.array([[k] for k in ks]))
    c.same("unstacked equations", sorted(d), list(range(G)))
    for g in range(G):
        c.eq("unstacked %d" % g, d[g], b[g])
    c.frame("inputs unchanged", lam, *(list(X.values()) + list(y.values()) + list(b.values()) + list(XL.values())))


@contract("C17", [U + "filter_dict", U + "check_k"], sym=False, draws=3)
def refusals(c):
    n, ks, y, X = system(c, 3)
    c.raises("number of equations and parameters differ", lambda: c.func(U + "filter_dict")(np.zeros((2, 1)), X, X))
    c.same("equal numbers of coefficients", bool(c.func(U + "check_k")(np.array([[3], [3], [3]]))), True)
    c.same("different numbers of coefficients", [bool(c.func(U + "check_k")(np.array(v))) for v in ([[3], [2], [3]], [[3], [3], [2]], [[1], [2], [2]])], [False] * 3)


def pd2(c, name, G):
    """a positive definite G x G matrix."""
    if c.symbolic:
        return c.array(name, G, G, symmetric=True)
    A = c.rng.randn(G + 3, G) * c.rng.uniform(0.2, 3)
    return K.reg(c, name, A.T @ A / (G + 3))


@contract("C17", [U + "sur_corr", D + "sur_lrtest", D + "sur_lmtest", D + "sur_setp", D + "lam_setp"], cases=[dict(G=g) for g in (2, 3)], draws=4,
          note="chi2.sf / norm.sf trusted")
def inference(c, G):
    S = pd2(c, "S", G)
    if c.symbolic:
        for i in range(G):
            c.assume(S[i, i] > 0)
    R = c.func(U + "sur_corr")(S)
    for i in range(G):
        for j in range(G):
            c.eq("correlation %d%d" % (i, j), R[i, j], S[i, j] / (S[i, i] ** 0.5 * S[j, j] ** 0.5))
    n = c.dim("n", 20, 60)
    l0, l1 = c.scalar("l0", 0, 3), c.scalar("l1", -3, 0)
    v, df, p = c.func(D + "sur_lrtest")(n, G, l0, l1)
    M = G * (G - 1) // 2
    c.eq("LR statistic", v, n * (l0 - l1))
    c.same("LR degrees of freedom", df, M)
    c.eq("LR p-value", p, c.chi2sf(n * (l0 - l1), M))
    v, df, p = c.func(D + "sur_lmtest")(n, G, S)
    t = sum(S[i, j] ** 2 / (S[i, i] * S[j, j]) for i in range(G) for j in range(i)) * n
    c.eq("LM statistic = n sum of squared correlations", v, t)
    c.same("LM degrees of freedom", df, M)
    c.eq("LM p-value", p, c.chi2sf(v, M))
    ks = [c.dim("k%d" % g, 1, 3) for g in range(G)]
    b = {g: c.array("b%d" % g, ks[g], 1) for g in range(G)}
    k = sum(ks[1:], ks[0])
    if c.symbolic:
        Vb = [c.array("v%d" % g, ks[g], positive=True) for g in range(G)]
        return
    V = pd2(c, "V", int(k))
    inf = c.func(D + "sur_setp")(b, V)
    st = np.vstack([b[g] for g in range(G)])[:, 0]
    se = np.sqrt(np.diag(V))
    c.eq("standard errors", np.vstack([inf[g] for g in range(G)])[:, 0], se)
    c.eq("z statistics", np.vstack([inf[g] for g in range(G)])[:, 1], st / se)
    c.eq("p-values", np.vstack([inf[g] for g in range(G)])[:, 2], 2 * c.stats.norm.sf(np.abs(st / se)))
    c.same("one block per equation", [inf[g].shape for g in range(G)], [(int(q), 3) for q in ks])
    lam = c.array("lam", G, 1)
    se, t, p = c.func(D + "lam_setp")(lam, S)
    s = np.sqrt(np.diag(S))
    c.eq("lambda standard errors", np.ravel(se), s)
    c.eq("lambda z", np.ravel(t), lam[:, 0] / s)
    c.eq("lambda p", np.ravel(p), 2 * c.stats.norm.sf(np.abs(lam[:, 0] / s)))


def wald_pairs(b, V, R):
    r = R @ b
    w = float((r.T @ np.linalg.solve(R @ V @ R.T, r))[0, 0])
    return w


@contract("C17", [D + "sur_chow", D + "sur_joinrho", "regimes:buildR1var", "regimes:wald_test"], sym=False, cases=[dict(G=g) for g in (2, 3, 4)], draws=4)
def chow(c, G):
    k = c.dim("k", 1, 4)
    b = {g: c.array("b%d" % g, k, 1) for g in range(G)}
    V = pd2(c, "V", G * k)
    t = c.func(D + "sur_chow")(G, np.array([[k]] * G), b, V)
    st = np.vstack([b[g] for g in range(G)])
    c.same("one test per coefficient", len(t), k)
    for i in range(k):
        R = np.zeros((G - 1, G * k))
        for g in range(1, G):
            R[g - 1, i], R[g - 1, g * k + i] = 1, -1
        w = wald_pairs(st, V, R)
        c.eq("equality of coefficient %d across equations" % i, t[i][0], w, tol=1e-6)
        c.same("degrees of freedom", int(t[i][1]), G - 1)
        c.eq("p-value", t[i][2], c.stats.chi2.sf(w, G - 1))
    ks = [int(c.rng.randint(1, 4)) for _ in range(G)]
    b = {g: K.reg(c, "c%d" % g, c.rng.randn(ks[g], 1)) for g in range(G)}
    V = pd2(c, "V2", sum(ks))
    w, df, p = c.func(D + "sur_joinrho")(G, np.array([[q] for q in ks]), b, V)
    R = np.zeros((G, sum(ks)))
    R[range(G), np.cumsum(ks) - 1] = 1
    e = wald_pairs(np.vstack([b[g] for g in range(G)]), V, R)
    c.eq("joint significance of the last coefficients", w, e, tol=1e-6)
    c.same("joint df", df, G)
    c.eq("joint p", p, c.stats.chi2.sf(e, G))
    c.frame_all("inputs unchanged")


@contract("C17", ["sur:_sur_ols"], cases=[dict(G=g) for g in (2, 3)], draws=3)
def sur_ols(c, G):
    n, ks, y, X = system(c, G)
    if not c.symbolic:
        c.assume(all(np.linalg.cond(X[r]) < 1e3 for r in X))

    class R:
        pass
    o = R()
    o.n_eq, o.bigy, o.bigX = G, y, X
    o.bigXX = {(r, t): X[r].T @ X[t] for r in range(G) for t in range(G)}
    o.bigXy = {(r, t): X[r].T @ y[t] for r in range(G) for t in range(G)}
    q = c.func("sur:_sur_ols")(o)
    c.true("returns the object", q is o)
    for g in range(G):
        b = c.inv(X[g].T @ X[g]) @ (X[g].T @ y[g])
        c.eq("OLS of equation %d" % g, o.bOLS[g], b)
        c.eq("OLS residuals of equation %d" % g, o.olsE[:, g:g + 1], y[g] - X[g] @ b)


def gls_spec(c, y, X, S):
    A, r = gls(c, y, X, None, c.inv(S))
    V = c.inv(A)
    return V @ r, V


def logdet(c, S):
    return c.logdet(S) if c.symbolic else np.linalg.slogdet(S)[1]


def stack(c, b):
    return c.np.vstack([b[g] for g in range(len(b))])


@contract("C17", ["sur:BaseSUR.__init__", "sur:_sur_ols"], cases=[dict(G=g) for g in (2, 3)], draws=4, timeout=150)
def base_sur(c, G):
    n, ks, y, X = system(c, G)
    if not c.symbolic:
        c.assume(all(np.linalg.cond(X[r]) < 1e3 for r in X))
    o = c.func("sur:BaseSUR")(y, X)
    E0 = c.np.hstack([y[g] - X[g] @ (c.inv(X[g].T @ X[g]) @ (X[g].T @ y[g])) for g in range(G)])
    c.same("n", o.n, n)
    c.same("equations", o.n_eq, G)
    S = E0.T @ E0 / n
    if not c.symbolic:
        c.assume(np.linalg.cond(S) < 1e3)
    c.eq("OLS residuals", o.olsE, E0)
    c.eq("covariance of the OLS residuals", o.sig, S)
    c.eq("covariance under independence", o.sig_ols, S)
    b, V = gls_spec(c, y, X, o.sig)
    c.eq("coefficients solve the GLS system", stack(c, o.bSUR), b, tol=1e-6)
    c.eq("varb = inverse GLS normal matrix", o.varb, V, tol=1e-6)
    for g in range(G):
        c.eq("residuals of equation %d" % g, o.bigE[:, g:g + 1], y[g] - X[g] @ o.bSUR[g])
        c.eq("predictions of equation %d" % g, o.bigYP[:, g:g + 1], X[g] @ o.bSUR[g])
        c.eq("number of coefficients %d" % g, o.bigK[g, 0], ks[g])
        for h in range(G):
            c.eq("correlation %d%d" % (g, h), o.corr[g, h], o.sig[g, h] / (o.sig[g, g] ** 0.5 * o.sig[h, h] ** 0.5))
    c.eq("log determinant under independence", o.ldetS0, sum((np.log(S[g, g]) if not c.symbolic else c.np.log(S[g, g])) for g in range(G)))
    c.eq("log determinant", o.ldetS1, logdet(c, o.sig))
    c.eq("log-likelihood", o.llik, -(n / 2) * (G * (1 + c.np.log(2 * c.np.pi)) + o.ldetS1))
    c.same("iterations", o.niter, 1)
    c.frame("inputs unchanged", *(list(X.values()) + list(y.values())))


@contract("C17", ["sur:BaseSUR.__init__"], cases=[dict(G=g) for g in (2, 3)], draws=0, num=False, timeout=150,
          note="while loop by invariant: arbitrary iterates; termination not claimed (bounded by maxiter)")
def iterated_step(c, G):
    """every step of the iterated estimator: the covariance of the residuals of the step before, the GLS solution with it."""
    n, ks, y, X = system(c, G)
    maxiter, eps = c.dim("maxiter"), c.scalar("eps", 0, 1)
    st, cur = {}, {}
    sur_est, resids = [], []

    def f_est(xx, xy, E, K_):
        for r in range(G):
            for t in range(G):
                c.eq("cross products X%d'X%d" % (r, t), xx[r, t], X[r].T @ X[t])
                c.eq("cross products X%d'y%d" % (r, t), xy[r, t], X[r].T @ y[t])
        for g in range(G):
            c.eq("numbers of coefficients", K_[g, 0], ks[g])
        i = len(sur_est)
        b = {g: c.array("b%d_%d" % (i, g), ks[g], 1) for g in range(G)}
        k = sum(ks[1:], ks[0])
        out = (b, c.array("V%d" % i, k, k), c.array("S%d" % i, G, G, symmetric=True))
        sur_est.append((E, out))
        return out
    c.stub(U + "sur_est", f_est)
    c.stub("sur:sur_est", f_est)
    if True:
        def enter(L):
            s = dict(L)
            st["it"] = c.dim("it1") - 1
            st["b"] = {g: c.array("hb%d" % g, ks[g], 1) for g in range(G)}
            st["E"] = c.np.hstack([y[g] - X[g] @ st["b"][g] for g in range(G)])
            o = L["self"]
            k = sum(ks[1:], ks[0])
            o.bSUR, o.varb, o.sig = st["b"], c.array("hV", k, k), c.array("hS", G, G, symmetric=True)
            st["S"] = o.sig
            s.update(n_iter=st["it"], resids=st["E"], det1=logdet(c, o.sig), det0=c.scalar("d0"))
            st["d0"] = s["det0"]
            return s

        def back(L, was):
            E, out = sur_est[-1]
            o = L["self"]
            c.eq("covariance from the residuals of the step before", E, st["E"])
            c.true("coefficients of this step", o.bSUR is out[0] and o.varb is out[1] and o.sig is out[2])
            for g in range(G):
                c.eq("residuals of this step", L["resids"][:, g:g + 1], y[g] - X[g] @ out[0][g])
            c.eq("log determinant of this step", L["det1"], logdet(c, out[2]))
            c.eq("log determinant of the step before", L["det0"], logdet(c, st["S"]))
            c.eq("iteration count", L["n_iter"], st["it"] + 1)
        c.loop("sur:BaseSUR.__init__", enter, back)
    o = c.func("sur:BaseSUR")(y, X, iter=True, maxiter=maxiter, epsilon=eps)
    c.true("the last iterate is reported", o.bSUR is st["b"] and o.sig is st["S"])
    c.eq("log determinant at the last iterate", o.ldetS1, logdet(c, st["S"]))
    for g in range(G):
        c.eq("residuals at the last iterate", o.bigE[:, g:g + 1], y[g] - X[g] @ st["b"][g])
        c.eq("predictions at the last iterate", o.bigYP[:, g:g + 1], X[g] @ st["b"][g])
    c.eq("log-likelihood at the last iterate", o.llik, -(n / 2) * (G * (1 + c.np.log(2 * c.np.pi)) + o.ldetS1))
    c.eq("iterations", o.niter, st["it"])
    if c.np.abs(logdet(c, st["S"]) - st["d0"]) > eps:
        c.true("stops only at convergence or after the allowed iterations", st["it"] > maxiter)


@contract("C17", ["sur:BaseThreeSLS.__init__", "sur:_sur_2sls", "sur:_get_bigZhat"], cases=[dict(G=g) for g in (2, 3)], draws=4, timeout=150)
def base_3sls(c, G):
    n, ks, y, X = system(c, G, lo=30, hi=60, kmax=2)
    p = [c.dim("p%d" % g, 1, 1) for g in range(G)]
    m = [c.dim("m%d" % g, 2, 3) for g in range(G)]
    if c.symbolic:
        Y = {g: c.array("Y%d" % g, n, p[g]) for g in range(G)}
        Q = {g: c.array("Q%d" % g, n, m[g]) for g in range(G)}
    else:
        Q = {g: c.array("Q%d" % g, n, m[g], style="plain") for g in range(G)}
        Y = {g: K.reg(c, "Y%d" % g, Q[g] @ c.rng.uniform(0.5, 1.5, (m[g], p[g])) + c.rng.randn(n, p[g])) for g in range(G)}
    o = c.func("sur:BaseThreeSLS")(y, X, Y, Q)
    Z, ZH, b2 = {}, {}, {}
    for g in range(G):
        H = c.np.hstack((X[g], Q[g]))
        Z[g] = c.np.hstack((X[g], Y[g]))
        HHi = c.inv(H.T @ H)
        # the projection of Z on the instruments: X itself, and fitted values of the endogenous variables
        ZH[g] = c.np.hstack((X[g], H @ (HHi @ (H.T @ Y[g]))))
        b2[g] = c.inv(ZH[g].T @ ZH[g]) @ (ZH[g].T @ y[g])
        if not c.symbolic:
            c.assume(np.linalg.cond(H) < 1e3 and np.linalg.cond(ZH[g]) < 1e4)
            c.eq("projection", ZH[g], H @ np.linalg.lstsq(H, Z[g], rcond=None)[0], tol=1e-6)
        c.eq("two stage least squares of equation %d" % g, o.b2SLS[g], b2[g], tol=1e-5)
        c.eq("2SLS residuals use the observed variables %d" % g, o.tslsE[:, g:g + 1], y[g] - Z[g] @ o.b2SLS[g])
        c.eq("number of coefficients %d" % g, o.bigK[g, 0], ks[g] + p[g])
    c.eq("covariance of the 2SLS residuals", o.sig, o.tslsE.T @ o.tslsE / n)
    b, V = gls_spec(c, y, ZH, o.sig)
    c.eq("coefficients solve the projected GLS system", stack(c, o.b3SLS), b, tol=1e-5)
    c.eq("varb = inverse projected GLS normal matrix", o.varb, V, tol=1e-5)
    for g in range(G):
        c.eq("residuals of equation %d" % g, o.bigE[:, g:g + 1], y[g] - Z[g] @ o.b3SLS[g])
        for h in range(G):
            c.eq("correlation %d%d" % (g, h), o.corr[g, h], o.sig[g, h] / (o.sig[g, g] ** 0.5 * o.sig[h, h] ** 0.5))
    c.frame("inputs unchanged", *(list(X.values()) + list(y.values()) + list(Y.values()) + list(Q.values())))


# ------------------------------------------------------------------ public classes (concrete)
def gls_num(y, X, S):
    G = len(y)
    n = y[0].shape[0]
    Xb = np.zeros((n * G, sum(X[g].shape[1] for g in range(G))))
    a = 0
    for g in range(G):
        Xb[g * n:(g + 1) * n, a:a + X[g].shape[1]] = X[g]
        a += X[g].shape[1]
    Oi = np.kron(np.linalg.inv(S), np.eye(n))
    V = np.linalg.inv(Xb.T @ Oi @ Xb)
    return V @ (Xb.T @ Oi @ np.vstack([y[g] for g in range(G)])), V


def expand(x, regimes):
    """columns by regime: all columns of the first regime, then those of the second, ..."""
    rs = sorted(set(regimes))
    R = np.array(regimes, dtype=object)
    return np.hstack([x * (R == r).astype(float)[:, None] for r in rs]), rs


def dictmat(d):
    return np.vstack([np.asarray(d[g]) for g in range(len(d))])


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def check_inference(c, o, b, V, inf, G):
    se = np.sqrt(np.diag(V))
    c.eq("standard errors", dictmat(inf)[:, 0], se, tol=1e-6)
    c.eq("z statistics", dictmat(inf)[:, 1], b[:, 0] / se, tol=1e-6)
    c.eq("p-values", dictmat(inf)[:, 2], 2 * c.stats.norm.sf(np.abs(b[:, 0] / se)), tol=1e-6)


def check_surchow(c, o, b, V, G, ks):
    if len(set(ks)) > 1:
        c.true("no equality test for different numbers of coefficients", o.surchow is None)
        return
    k = ks[0]
    c.same("one equality test per coefficient", len(o.surchow), k)
    for i in range(k):
        R = np.zeros((G - 1, G * k))
        for g in range(1, G):
            R[g - 1, i], R[g - 1, g * k + i] = 1, -1
        w = wald_pairs(b, V, R)
        c.eq("equality of coefficients across equations", o.surchow[i][0], w, tol=1e-5)
        c.eq("equality p-value", o.surchow[i][2], c.stats.chi2.sf(w, G - 1), tol=1e-5)


def check_regchow(c, o, b, V, G, kx, ky, nr, fixed=0):
    """Chow tests of every equation: equality over regimes of each regressor, then each endogenous variable.
    Coefficients of an equation: exogenous by regime, endogenous by regime, fixed ones last."""
    a = 0
    for g in range(G):
        K_ = (kx[g] + ky[g]) * nr + fixed
        bb, VV = b[a:a + K_], V[a:a + K_, a:a + K_]
        a += K_
        joint, regi = o.chow_regimes[g]
        c.same("one Chow test per coefficient (equation %d)" % g, len(regi), kx[g] + ky[g])
        Rs = []
        for i in range(kx[g] + ky[g]):
            R = np.zeros((nr - 1, K_))
            for r in range(1, nr):
                p0, p1 = (i, r * kx[g] + i) if i < kx[g] else (nr * kx[g] + i - kx[g], nr * kx[g] + r * ky[g] + i - kx[g])
                R[r - 1, p0], R[r - 1, p1] = 1, -1
            Rs.append(R)
            w = wald_pairs(bb, VV, R)
            c.eq("Chow statistic of coefficient %d" % i, regi[i, 0], w, tol=1e-5)
            c.eq("Chow p-value", regi[i, 1], c.stats.chi2.sf(w, nr - 1), tol=1e-5)
        R = np.vstack(Rs)
        c.assume(np.linalg.cond(R @ VV @ R.T) < 1e9)
        w = wald_pairs(bb, VV, R)
        c.eq("global Chow statistic", joint[0], w, tol=1e-4)
        c.eq("global Chow p-value", joint[1], c.stats.chi2.sf(w, R.shape[0]), tol=1e-4)


def with_regimes(c, d, kw):
    rg = zoo.regimes_of(c, d.n)
    kw.update(regimes=rg, name_regimes="reg")
    return rg


@contract("C17", ["sur:SUR.__init__"], sym=False, cases=[dict(reg=r, it=i) for r in (False, True) for i in (False, True)], draws=4)
def public_sur(c, reg, it):
    kind, d, kw = zoo.system_args(c, "SUR", n=c.dim("n", 60, 80) if reg else None)
    kw["iter"] = it
    G = d.G
    y, X = d.bigy, {g: d.bigX[g] for g in range(G)}
    rs = None
    names = {g: list(kw["name_bigX"][g]) for g in range(G)}
    if reg:
        rg = with_regimes(c, d, kw)
        for g in range(G):
            X[g], rs = expand(d.bigX[g], rg)
            names[g] = ["%s_%s" % (r, v) for r in rs for v in kw["name_bigX"][g]]
    o = zoo.build(c, "SUR", kw)
    E0 = np.hstack([K.ols_ref(y[g], X[g])[1] for g in range(G)])
    S0 = E0.T @ E0 / d.n
    b, V = gls_num(y, X, o.sig)
    c.eq("coefficients solve the GLS system at the reported covariance", dictmat(o.bSUR), b, tol=1e-6)
    c.eq("varb", o.varb, V, tol=1e-6)
    E = np.hstack([y[g] - X[g] @ o.bSUR[g] for g in range(G)])
    c.eq("residuals", o.bigE, E)
    if not it:
        c.eq("covariance of the OLS residuals", o.sig, S0, tol=1e-7)
    else:
        c.eq("covariance of the last step's residuals (to convergence)", np.linalg.slogdet(E.T @ E / d.n)[1], np.linalg.slogdet(o.sig)[1],
             tol=1e-3 if o.niter < 6 else 0.1, scale=1.0)
        c.true("iterations within the limit", 1 <= o.niter <= 6)
    ld0 = float(np.log(np.diag(S0)).sum())
    ld1 = float(np.linalg.slogdet(o.sig)[1])
    M = G * (G - 1) // 2
    lr = d.n * (ld0 - ld1)
    c.eq("log-likelihood", o.llik, -d.n / 2 * (G * (1 + np.log(2 * np.pi)) + ld1), tol=1e-6)
    c.eq("LR test", o.lrtest, (lr, M, c.stats.chi2.sf(lr, M)), tol=1e-5)
    D0 = np.sqrt(np.diag(S0))
    Rc = S0 / np.outer(D0, D0)
    lm = d.n / 2 * ((Rc ** 2).sum() - G)
    c.eq("LM test on the OLS residual correlations", o.lmtest, (lm, M, c.stats.chi2.sf(lm, M)), tol=1e-6)
    check_inference(c, o, b, V, o.sur_inf, G)
    check_surchow(c, o, b, V, G, [X[g].shape[1] for g in range(G)])
    c.same("names", {g: list(o.name_bigX[g]) for g in range(G)}, names)
    if reg:
        check_regchow(c, o, b, V, G, [d.bigX[g].shape[1] for g in range(G)], [0] * G, len(rs))
    c.frame_all("inputs unchanged")


@contract("C17", ["sur:ThreeSLS.__init__"], sym=False, cases=[dict(reg=False), dict(reg=True)], draws=5)
def public_3sls(c, reg):
    kind, d, kw = zoo.system_args(c, "ThreeSLS", n=c.dim("n", 60, 80) if reg else None)
    G = d.G
    y = d.bigy
    rs = None
    X, Y, Q = dict(d.bigX), dict(d.bigyend), dict(d.bigq)
    names = {g: list(kw["name_bigX"][g]) for g in range(G)}
    namey = {g: list(kw["name_bigyend"][g]) for g in range(G)}
    if reg:
        rg = with_regimes(c, d, kw)
        for g in range(G):
            X[g], rs = expand(d.bigX[g], rg)
            Y[g], _ = expand(d.bigyend[g], rg)
            Q[g], _ = expand(d.bigq[g], rg)
            names[g] = ["%s_%s" % (r, v) for r in rs for v in names[g]]
            namey[g] = ["%s_%s" % (r, v) for r in rs for v in namey[g]]
    o = zoo.build(c, "ThreeSLS", kw)
    Z, ZH, E0 = {}, {}, []
    for g in range(G):
        Z[g], H = np.hstack((X[g], Y[g])), np.hstack((X[g], Q[g]))
        c.assume(np.linalg.cond(H) < 1e4)
        ZH[g] = H @ np.linalg.lstsq(H, Z[g], rcond=None)[0]
        c.assume(np.linalg.cond(ZH[g]) < 1e3)
        E0.append(y[g] - Z[g] @ K.ols_ref(y[g], ZH[g])[0])
    E0 = np.hstack(E0)
    c.eq("covariance of the 2SLS residuals", o.sig, E0.T @ E0 / d.n, tol=1e-6)
    b, V = gls_num(y, ZH, o.sig)
    c.eq("coefficients solve the projected GLS system", dictmat(o.b3SLS), b, tol=1e-6)
    c.eq("varb", o.varb, V, tol=1e-6)
    c.eq("residuals", o.bigE, np.hstack([y[g] - Z[g] @ o.b3SLS[g] for g in range(G)]))
    check_inference(c, o, b, V, o.tsls_inf, G)
    check_surchow(c, o, b, V, G, [Z[g].shape[1] for g in range(G)])
    c.same("names of X", {g: list(o.name_bigX[g]) for g in range(G)}, names)
    c.same("names of endogenous variables", {g: list(o.name_bigyend[g]) for g in range(G)}, namey)
    if reg:
        check_regchow(c, o, b, V, G, [d.bigX[g].shape[1] for g in range(G)], [1] * G, len(rs))
    c.frame_all("inputs unchanged")


@contract("C17", ["sur:BaseSUR.__init__", U + "sur_est"], sym=False, draws=6)
def reductions(c):
    """identical regressors, or uncorrelated residuals: equation by equation least squares."""
    G, n, k = int(c.rng.randint(2, 5)), c.dim("n", 20, 50), c.dim("k", 1, 4)
    x = np.hstack([np.ones((n, 1)), c.array("x", n, k, style="plain")])
    y = {g: c.array("y%d" % g, n, 1, style="plain") for g in range(G)}
    o = c.func("sur:BaseSUR")(y, {g: x.copy() for g in range(G)}, iter=bool(c.rng.rand() < 0.5))
    c.eq("identical regressors: OLS by equation", dictmat(o.bSUR), np.vstack([K.ols_ref(y[g], x)[0] for g in range(G)]), tol=1e-6)
    X = {g: x[:, :1 + c.rng.randint(0, k + 1)] for g in range(G)}
    q = np.linalg.qr(c.rng.randn(n, G))[0] * c.rng.uniform(0.5, 3, G) * np.sqrt(n)
    xx, xy = c.func(U + "sur_crossprod")(X, y)
    b, V, S = c.func(U + "sur_est")(xx, xy, q, np.array([[X[g].shape[1]] for g in range(G)]))
    c.eq("uncorrelated residuals: OLS by equation", dictmat(b), np.vstack([K.ols_ref(y[g], X[g])[0] for g in range(G)]), tol=1e-6)


@contract("C17", [U + "sur_dictxy", U + "sur_dictZ"], sym=False, cases=[dict(mode=m) for m in ("wide", "stacked")], draws=4)
def data_helpers(c, mode):
    import pandas as pd
    N, T = c.dim("N", 4, 9), c.dim("T", 2, 4)
    rng = c.rng
    xy, Zf = c.func(U + "sur_dictxy"), c.func(U + "sur_dictZ")
    if mode == "wide":
        G = T
        db = pd.DataFrame({"v%d" % i: rng.randn(N) for i in range(4 * G)})
        ys = ["v%d" % g for g in range(G)]
        xs = [["v%d" % (G + g * 2 + j) for j in range(1 + g % 2)] for g in range(G)]
        keep = [list(x) for x in xs]
        y, X, ny, nX = xy(db, ys, xs)
        for g in range(G):
            c.eq("y", y[g], db[[ys[g]]].values)
            c.eq("constant and regressors", X[g], np.hstack([np.ones((N, 1)), db[xs[g]].values]))
            c.same("name of y", ny[g], ys[g])
            c.same("names of x", list(nX[g]), ["Constant_%d" % (g + 1)] + keep[g])
        for const in (False, True):
            Zz, nZ = Zf(db, xs, const=const)
            for g in range(G):
                c.eq("other variables", Zz[g], np.hstack([np.ones((N, 1)), db[xs[g]].values]) if const else db[xs[g]].values)
                c.same("their names", list(nZ[g]), (["Constant_%d" % (g + 1)] if const else []) + keep[g])
        c.same("lists unchanged", xs, keep)
        c.raises("mismatched lists", lambda: xy(db, ys, xs[:-1]))
    else:
        ids = rng.permutation(100)[:N] + 1000
        ts = sorted(rng.permutation(50)[:T] + 1950)
        rows = [(int(i), int(t)) for t in ts for i in ids]
        rng.shuffle(rows)
        db = pd.DataFrame(dict(id=[r[0] for r in rows], t=[r[1] for r in rows], y=rng.randn(N * T), a=rng.randn(N * T), b=rng.randn(N * T)))
        order = list(dict.fromkeys(db["id"]))
        y, X, ny, nX = xy(db, ["y"], [["a", "b"]], space_id=["id"], time_id=["t"])
        Zz, nZ = Zf(db, [["a", "b"]], form="plm", space_id=["id"], time_id=["t"])
        c.same("one equation per period", sorted(y), list(range(T)))
        for g, t in enumerate(ts):
            sub = db[db.t == t].set_index("id").loc[order]
            c.eq("y of the period", np.ravel(y[g]), sub["y"].values)
            c.same("y is a column", y[g].shape, (N, 1))
            c.eq("constant and regressors", X[g], np.hstack([np.ones((N, 1)), sub[["a", "b"]].values]))
            c.eq("other variables", Zz[g], sub[["a", "b"]].values)
            c.same("name of y", ny[g], "y_%d" % t)
            c.same("names of x", list(nX[g]), ["%s_%d" % (v, t) for v in ("Constant", "a", "b")])
            c.same("names of others", list(nZ[g]), ["%s_%d" % (v, t) for v in ("a", "b")])
        c.raises("time id required", lambda: xy(db, ["y"], [["a"]]))
        c.raises("time id required", lambda: Zf(db, [["a"]], form="plm"))
        c.raises("unknown form", lambda: Zf(db, [["a"]], form="long"))


@contract("C17", ["sur:SUR.__init__", "sur:ThreeSLS.__init__"], sym=False, draws=2, cases=[dict(kind="SUR"), dict(kind="ThreeSLS")])
def lists_of_names(c, kind):
    """column names of a data frame are the same model as dictionaries of arrays."""
    import pandas as pd
    _, d, kw = zoo.system_args(c, kind)
    G = d.G
    cols = {}
    ly, lx, le, lq = [], [], [], []
    for g in range(G):
        cols["y%d" % g] = d.bigy[g][:, 0]
        ly.append("y%d" % g)
        lx.append([])
        for j in range(1, d.bigX[g].shape[1]):
            cols["x%d_%d" % (g, j)] = d.bigX[g][:, j]
            lx[-1].append("x%d_%d" % (g, j))
        if kind == "ThreeSLS":
            for nm, src, lst in (("e", d.bigyend, le), ("q", d.bigq, lq)):
                lst.append([])
                for j in range(src[g].shape[1]):
                    cols["%s%d_%d" % (nm, g, j)] = src[g][:, j]
                    lst[-1].append("%s%d_%d" % (nm, g, j))
    df = pd.DataFrame(cols)
    k2 = {k: v for k, v in kw.items() if not k.startswith("name_") and not k.startswith("big")}
    k2.update(bigy=ly, bigX=lx, df=df)
    if kind == "ThreeSLS":
        k2.update(bigyend=le, bigq=lq)
    a, b = zoo.build(c, kind, kw), zoo.build(c, kind, k2)
    at = "bSUR" if kind == "SUR" else "b3SLS"
    c.eq("same coefficients", dictmat(getattr(b, at)), dictmat(getattr(a, at)))
    c.eq("same variance", b.varb, a.varb)
    c.same("names", [list(b.name_bigX[g])[1:] for g in range(G)], lx)
    with c.np.errstate(all="ignore"):
        bad = dict(k2)
        bad["df"] = None
        c.raises("data frame required", lambda: zoo.build(c, kind, bad))
        bad = dict(k2)
        bad["bigX"] = lx[:-1]
        c.raises("numbers of equations differ", lambda: zoo.build(c, kind, bad))
        bad = dict(kw)
        bad["bigy"] = ly
        c.raises("lists and dictionaries mixed", lambda: zoo.build(c, kind, bad))


def printed_system(c, o):
    """the summary of a system prints the tests of the whole system under their names, and the error correlations."""
    s = o.summary
    part = lambda t: s.partition(t)[2].partition("\n\n")[0] if t in s else ""
    P = lambda text, t, v: K.printed(c, text, t, v[1], v[0], v[2])
    K.printed(c, s, "Number of Equations", o.n_eq)
    K.printed(c, s, "Number of Observations", o.n)
    for g in range(o.n_eq):
        T = s.partition("SUMMARY OF EQUATION %d\n" % (g + 1))[2].partition("Variable     Coefficient")[0]
        k = len(o.name_bigX[g]) + len(getattr(o, "name_bigyend", {}).get(g, []))
        y = np.asarray(o.bigy[g])
        c.true("equations under their dependent variable", o.name_bigy[g] in T)
        for label, v in (("Number of Variables", k), ("Degrees of Freedom", o.n - k), ("Mean dependent var", y.mean())):
            K.printed(c, T, label, v)
    T = part("\nDIAGNOSTICS FOR SPATIAL DEPENDENCE\n")
    if getattr(o, "lmEtest", None) is not None:
        P(T, "Lagrange Multiplier (error)", o.lmEtest)
        P(T, "Lagrange Multiplier (lag)", o.lmlagtest)
    T = part("\nREGRESSION DIAGNOSTICS\n")
    if hasattr(o, "lmtest") and o.lmtest is not None:
        P(T, "LM test on Sigma", o.lmtest)
    if hasattr(o, "lrtest"):
        P(T, "LR test on Sigma", o.lrtest)
    if getattr(o, "joinrho", None) is not None:
        P(T, "Joint significance (rho)", o.joinrho)
    lam = getattr(o, "lamtest", None) is not None
    if lam:
        P(T, "LR test on lambda", o.likrlambda)
        P(T, "Joint significance (lambda)", o.joinlam)
    T = part("\nOTHER DIAGNOSTICS - CHOW TEST BETWEEN EQUATIONS\n")
    if o.surchow is not None:
        c.same("one row per equality test", len(T.strip().split("\n")) - 1, len(o.surchow) + int(lam))
        names = {g: list(o.name_bigX[g]) + list(getattr(o, "name_bigyend", {}).get(g, [])) for g in range(o.n_eq)}
        for i in range(len(o.surchow)):
            nm = ", ".join(names[g][i] for g in range(o.n_eq))
            if len(nm) <= 38:
                P(T, nm, o.surchow[i])
        if lam:
            P(T, "lambda", o.lamtest)
    T = part("\nERROR CORRELATION MATRIX\n")
    rows = [[float(v) for v in l.split()] for l in T.split("=====")[0].strip().split("\n")[1:]]
    c.true("printed error correlations", np.abs(np.array(rows) - np.asarray(o.corr)).max() <= 6e-7)
    D_ = np.sqrt(np.diag(o.sig))
    c.eq("error correlations of the reported covariance", o.corr, o.sig / np.outer(D_, D_), tol=1e-6)


@contract("C17", ["summary_output:summary_diag_sur", "summary_output:SUR_multi", "summary_output:summary_errorcorr"], sym=False,
          cases=[dict(kind=k, reg=r) for k in ("SUR", "ThreeSLS") for r in (False, True)], draws=3, bounded="random systems n<=80, printed digits")
def printed(c, kind, reg):
    _, d, kw = zoo.system_args(c, kind, n=c.dim("n", 60, 80), diff=False)
    if kind == "SUR":
        kw.update(w=d.w, spat_diag=True)
    if reg:
        with_regimes(c, d, kw)
    printed_system(c, zoo.build(c, kind, kw))


# ------------------------------------------------------------------ Wald tests across equations, for all coefficients and covariances
@contract("C17", [D + "sur_chow", D + "sur_joinrho", U + "sur_dict2mat", "regimes:buildR1var", "regimes:wald_test"],
          cases=[dict(G=2, k=1), dict(G=2, k=2), dict(G=2, k=3), dict(G=3, k=2), dict(G=4, k=1)], draws=2,
          note="all coefficient vectors and covariances, for every enumerated (number of equations, coefficients per equation)")
def equal_coefficients(c, G, k):
    """each test is the Wald statistic of b_1k = ... = b_Gk (chow) and of all last coefficients being zero (joinrho)."""
    m = G * k
    b = {g: c.array("b%d" % g, k, 1, style="plain") for g in range(G)}
    V = c.array("V", m, m, symmetric=True, style="plain")
    if not c.symbolic:
        V = V @ V.T + 0.1 * np.eye(m)
    st = c.np.vstack([b[g] for g in range(G)])

    def stat(R):
        R = c.np.array(R)
        d = R @ st
        return (d.T @ c.inv(R @ V @ R.T) @ d)[0, 0]
    t = c.func(D + "sur_chow")(G, np.array([[k]] * G), b, V)
    c.same("one test per coefficient", len(t), k)
    for i in range(k):
        R = np.zeros((G - 1, m))
        for g in range(1, G):
            R[g - 1, i], R[g - 1, g * k + i] = 1, -1
        c.eq("statistic of coefficient %d" % i, t[i][0], stat(R))
        c.same("degrees of freedom of coefficient %d" % i, int(t[i][1]), G - 1)
        c.eq("p of coefficient %d" % i, t[i][2], c.chi2sf(t[i][0], G - 1))
    w, df, p = c.func(D + "sur_joinrho")(G, np.array([[k]] * G), b, V)
    R = np.zeros((G, m))
    for g in range(G):
        R[g, g * k + k - 1] = 1
    c.eq("joint statistic of the last coefficients", w, stat(R))
    c.same("joint df", int(df), G)
    c.eq("joint p", p, c.chi2sf(w, G))
    c.frame("inputs unchanged", V, *[b[g] for g in range(G)])


# ------------------------------------------------------------------ public constructors: what they hand to the base class and to the tests
def system_constructor(c, module, cls, base, ks, marks=(), w=True, flags=None, endog=None, lag=None, bname="bSUR", after=None, named=True):
    """the public class hands its base class y, [1, X], [Yend, Wy], [Q, lags] of every equation and every option, and publishes the base class's results with the
    tests of exactly those; callees under their contracts: input checks (C21), base class, tests (own contracts), printing."""
    import inspect
    G = len(ks)
    n = c.dim("n", 12)
    one = c.np.ones((n, 1))
    y = {g: c.array("y%d" % g, n, 1) for g in range(G)}
    X = {g: c.np.hstack((one, c.array("x%d" % g, n, ks[g] - 1))) for g in range(G)}
    kw = dict(bigy=y, bigX=X, name_ds="ds", nonspat_diag=True)
    names = {g: ["CONSTANT"] + ["x%d_%d" % (i, g) for i in range(ks[g] - 1)] for g in range(G)}
    if named:
        kw.update(name_bigy={g: "y%d" % g for g in range(G)}, name_bigX=names)
    W = None
    if w:
        W = c.weights("W", n, "row")
        kw.update(w=W, name_w="wfile")
    ye = q = None
    if endog:
        ye = {g: c.array("e%d" % g, n, endog) for g in range(G)}
        q = {g: c.array("q%d" % g, n, endog + 1) for g in range(G)}
        kw.update(bigyend=ye, bigq=q)
        if named:
            kw.update(name_bigyend={g: ["e%d_%d" % (i, g) for i in range(endog)] for g in range(G)}, name_bigq={g: ["q%d_%d" % (i, g) for i in range(endog + 1)] for g in range(G)})
    if lag:
        kw.update(w_lags=lag[0], lag_q=lag[1])
    mk = {m: K.Mark(m) for m in marks}
    kw.update(mk)
    kw.update(flags or {})
    c.stub("user_output:check_weights", lambda w_, *a, **z: w_)
    c.stub("sur_utils:check_system", lambda *a: None)
    c.stub("summary_output:SUR", lambda *a, **z: None)
    calls = {}

    def record(name):
        sig = inspect.signature(getattr(c.mod("diagnostics_sur"), name))

        def f(*a, **z):
            calls.setdefault(name, []).append(dict(sig.bind(*a, **z).arguments))
            r = K.Mark(name)
            calls[name][-1]["result"] = r
            return r
        c.stub("diagnostics_sur:" + name, f)
    for f in ("sur_setp", "sur_lrtest", "sur_lmtest", "surLMe", "surLMlag", "sur_chow", "sur_joinrho", "lam_setp"):
        record(f)
    got = []
    bm, bc = base.split(":")
    pos = list(inspect.signature(getattr(c.mod(bm), bc).__init__).parameters)[1:]
    kk = [k + (endog or 0) + (1 if lag else 0) for k in ks]
    R = {}

    def init(self, *a, **z):
        z = dict(zip(pos, a), **z)
        got.append(z)
        self.n, self.n2, self.n_eq = n, n / 2.0, G
        self.bigy, self.bigX = z["bigy"], z["bigX"]
        self.bigK = np.array([[k] for k in kk])
        R["b"] = {g: c.array("b%d" % g, kk[g], 1) for g in range(G)}
        setattr(self, bname, R["b"])
        R["V"] = self.varb = c.array("V", sum(kk), sum(kk), symmetric=True)
        for a_ in ("sig", "sig_ols", "corr"):
            setattr(self, a_, c.array(a_, G, G, symmetric=True))
        for a_ in ("ldetS0", "ldetS1", "llik", "clikerr", "cliksurerr", "errllik", "surerrllik"):
            setattr(self, a_, c.scalar(a_))
        for a_ in ("bigE", "bigYP"):
            setattr(self, a_, c.array(a_, n, G))
        self.lamsur = c.array("lamsur", G, 1)
        self.lamols = c.array("lamols", G, 1)
        R["self"] = dict(self.__dict__)
    c.stub("%s:%s.__init__" % (bm, bc), init)
    try:
        o = getattr(c.mod(module), cls)(**kw)
    except (AttributeError, KeyError, TypeError) as e:
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    c.structure(len(got) == 1, "not one call of the base class")
    z = got[0]
    c.same("equations", sorted(z["bigy"]), list(range(G)))
    for g in range(G):
        c.eq("y of equation %d handed over" % g, z["bigy"][g], y[g])
        c.eq("X of equation %d handed over" % g, z["bigX"][g], X[g])
        E, Q = (ye[g], q[g]) if endog else (None, None)
        if lag:
            Wy = c.wd(W) @ y[g]
            E = Wy if E is None else c.np.hstack((E, Wy))
            WX = K.lags(c, W, X[g][:, 1:], 1, lag[0])
            if Q is None:
                Q = WX
            else:
                Q = c.np.hstack((Q, WX) + ((K.lags(c, W, q[g], 1, lag[0]),) if lag[1] else ()))
        if E is not None:
            c.eq("endogenous variables of equation %d handed over" % g, z["bigyend"][g], E)
            c.eq("instruments of equation %d handed over" % g, z["bigq"][g], Q)
    for m in marks:
        c.true("option %s handed over" % m, z.get(m) is mk[m])
    if w and "w" in pos:
        c.true("weights handed over", z.get("w") is W)
    # published
    c.true("coefficients published", getattr(o, bname) is R["b"])
    c.true("covariance published", o.varb is R["V"])

    def test(name, attr, **args):
        r = calls.get(name, [])
        c.structure(len(r) == 1, "%d calls of %s" % (len(r), name))
        c.structure(all(a_ in r[0] for a_ in args), "arguments of %s" % name)
        for a_, v in args.items():
            if isinstance(v, dict) or isinstance(v, int):
                c.true("%s is given %s" % (name, a_), r[0][a_] is v or r[0][a_] == v)
            else:
                c.eq("%s is given %s" % (name, a_), r[0][a_], v)
        c.true("%s is the result of %s" % (attr, name), getattr(o, attr) is r[0]["result"])
    setp = [a for a in calls.get("sur_setp", [])]
    c.structure(len(setp) == 1 and len(setp[0]) == 3, "calls of sur_setp")
    c.true("inference of the coefficients", setp[0]["result"] is getattr(o, "sur_inf" if bname == "bSUR" else "tsls_inf"))
    sp = list(setp[0].values())
    c.true("inference is given the coefficients", sp[0] is R["b"])
    c.eq("inference is given the covariance", sp[1], R["V"])
    if len(set(kk)) == 1:
        r = calls.get("sur_chow", [])
        c.structure(len(r) == 1 and len(r[0]) == 5, "calls of sur_chow")
        c.true("test of equal coefficients", o.surchow is r[0]["result"] and list(r[0].values())[2] is R["b"])
        c.eq("test of equal coefficients is given the covariance", list(r[0].values())[3], R["V"])
    else:
        c.true("no test of equal coefficients for equations of different size", o.surchow is None and not calls.get("sur_chow"))
    # names
    yn = [o.name_bigy[g] for g in range(G)]
    if named:
        c.same("names of y", yn, ["y%d" % g for g in range(G)])
        for g in range(G):
            c.same("names of X of equation %d" % g, list(o.name_bigX[g]), names[g])
    for g in range(G):
        c.same("one name per column of equation %d" % g, len(o.name_bigX[g]), ks[g])
        if E is not None:
            en = list(o.name_bigyend[g])
            c.same("one name per endogenous variable of equation %d" % g, len(en), (endog or 0) + (1 if lag else 0))
            c.same("one name per instrument of equation %d" % g, len(o.name_bigq[g]), z["bigq"][g].shape[1])
            if lag:
                c.same("name of the spatial lag of equation %d" % g, en[-1], "W_" + yn[g])
    if named:
        c.same("caller's names unchanged", [kw["name_bigX"][g] for g in range(G)], [["CONSTANT"] + ["x%d_%d" % (i, g) for i in range(ks[g] - 1)] for g in range(G)])
    c.frame("inputs unchanged", *[v for d in (y, X, ye, q) if d for v in d.values()])
    if after:
        after(o, R, calls, test, z, W, n, G)


@contract("C17", ["sur:SUR.__init__"], num=False, draws=0, cases=[dict(ks=(3, 3), diag=True, named=True), dict(ks=(2, 3), diag=False, named=False), dict(ks=(2, 2, 2), diag=True, named=False)],
          note="callees (input checks, base class, tests, printing) by their contracts")
def sur_constructor(c, ks, diag, named):
    def after(o, R, calls, test, z, W, n, G):
        s = R["self"]
        if diag:
            test("sur_lrtest", "lrtest", ldetS0=s["ldetS0"], ldetS1=s["ldetS1"], n=n, n_eq=G)
            test("sur_lmtest", "lmtest", sig=s["sig_ols"], n=n, n_eq=G)
            for f, a in (("surLMe", "lmEtest"), ("surLMlag", "lmlagtest")):
                r = calls.get(f, [])
                c.structure(len(r) == 1 and {"WS", "bigE", "sig"} <= set(r[0]), "calls of " + f)
                c.true(a, getattr(o, a) is r[0]["result"])
                c.eq(f + " is given W", r[0]["WS"], c.wd(W))
                c.eq(f + " is given the residuals", r[0]["bigE"], s["bigE"])
                c.eq(f + " is given the covariance", r[0]["sig"], s["sig"])
        else:
            c.true("no diagnostics unless asked for", all(getattr(o, a) is None for a in ("lrtest", "lmtest", "lmEtest", "lmlagtest")))
    system_constructor(c, "sur", "SUR", "sur:BaseSUR", ks, marks=("iter", "maxiter", "epsilon", "verbose"), w=True, flags=dict(spat_diag=diag, nonspat_diag=diag), after=after, named=named)


@contract("C17", ["sur:ThreeSLS.__init__"], num=False, draws=0, cases=[dict(ks=(3, 3), endog=1, named=True), dict(ks=(2, 3), endog=2, named=False)],
          note="callees (input checks, base class, tests, printing) by their contracts")
def threesls_constructor(c, ks, endog, named):
    system_constructor(c, "sur", "ThreeSLS", "sur:BaseThreeSLS", ks, w=False, endog=endog, bname="b3SLS", named=named)
