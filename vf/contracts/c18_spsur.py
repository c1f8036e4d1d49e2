"""C18: spatial SUR models (GM and ML error, IV lag) and their diagnostics."""
import numpy as np

from ..engine import contract
from . import common as K, zoo
from .c07_mllag import ml_grid
from .c08_mlerror import conc_err
from .c17_sur import check_inference, check_regchow, check_surchow, dictmat, expand, gls, gls_num, gls_spec, logdet, pd2, printed_system, stack, system, system_constructor, with_regimes

E_ = "sur_error:"
D = "diagnostics_sur:"


def wsys(c, G, kind="row", **kw):
    n, ks, y, X = system(c, G, **kw)
    w = c.weights("W", n, kind)
    return n, ks, y, X, w, c.wd(w)


@contract("C18", [E_ + "_momentsGM_sur_Error"], cases=[dict(G=g) for g in (2, 3)], draws=4)
def moments(c, G):
    """the three Kelejian-Prucha moment equations of every equation."""
    n = c.dim("n", 8, 30)
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    u = c.array("u", n, G)
    m = c.func(E_ + "_momentsGM_sur_Error")(w.sparse, u)
    c.same("one system per equation", sorted(m), list(range(G)))
    t = c.tr(W.T @ W)
    for r in range(G):
        Gm, g = m[r]
        e = u[:, r:r + 1]
        v = W @ e
        z = W @ v
        s = lambda a, b: (a.T @ b)[0, 0] / n
        for i, x in enumerate((s(e, e), s(v, v), s(e, v))):
            c.eq("g[%d] of equation %d" % (i, r), g[i, 0], x)
        ref = ((2 * s(e, v), -s(v, v), 1), (2 * s(z, v), -s(z, z), t / n), (s(e, z) + s(v, v), -s(v, z), 0))
        for i in range(3):
            for j in range(3):
                c.eq("G[%d,%d] of equation %d" % (i, j, r), Gm[i, j], ref[i][j])
    c.frame("inputs unchanged", u)


def fsys(c, y, X, W, lam):
    G = len(y)
    ys = {g: y[g] - lam[g] * (W @ y[g]) for g in range(G)}
    Xs = {g: X[g] - lam[g] * (W @ X[g]) for g in range(G)}
    return ys, Xs


@contract("C18", [E_ + "BaseSURerrorGM.__init__"], cases=[dict(G=g) for g in (2, 3)], draws=3, timeout=150,
          note="optim_moments: callee contract (C27)")
def base_gm(c, G):
    n, ks, y, X, w, W = wsys(c, G, lo=25)
    rec = []
    if c.symbolic:
        lams = [c.scalar("l%d" % g, -1, 1) for g in range(G)]
        c.stub("sur_error:optim_moments", lambda m: rec.append(m) or lams[len(rec) - 1])
    else:
        c.assume(all(np.linalg.cond(X[r]) < 1e3 for r in X))
    o = c.func(E_ + "BaseSURerrorGM")(y, X, w)
    E0 = c.np.hstack([y[g] - X[g] @ (c.inv(X[g].T @ X[g]) @ (X[g].T @ y[g])) for g in range(G)])
    lam = [o.lamsur[g, 0] for g in range(G)]
    if c.symbolic:
        c.structure(len(rec) == G, "one optimisation per equation")
        mom = c.func(E_ + "_momentsGM_sur_Error")(w.sparse, E0)
        for g in range(G):
            c.eq("lambda %d is the minimiser" % g, lam[g], lams[g])
            for i in range(2):
                c.eq("moments of the OLS residuals, equation %d" % g, rec[g][i], mom[g][i])
    else:
        import spreg
        mom = c.func(E_ + "_momentsGM_sur_Error")(w.sparse, E0)
        for g in range(G):
            c.eq("lambda from the OLS residual moments", lam[g], c.func("utils:optim_moments")(mom[g]), tol=1e-6)
    ys, Xs = fsys(c, y, X, W, lam)
    F = c.np.hstack([E0[:, g:g + 1] - lam[g] * (W @ E0[:, g:g + 1]) for g in range(G)])
    c.eq("covariance of the filtered OLS residuals", o.sig, F.T @ F / n)
    if not c.symbolic:
        c.assume(np.linalg.cond(o.sig) < 1e4 and all(np.linalg.cond(Xs[r]) < 1e4 for r in Xs))
    b, V = gls_spec(c, ys, Xs, o.sig)
    c.eq("coefficients solve the filtered GLS system", stack(c, o.bSUR), b, tol=1e-5)
    c.eq("varb", o.varb, V, tol=1e-5)
    for g in range(G):
        c.eq("residuals in the original variables %d" % g, o.bigE[:, g:g + 1], y[g] - X[g] @ o.bSUR[g])
        for h in range(G):
            c.eq("correlation %d%d" % (g, h), o.corr[g, h], o.sig[g, h] / (o.sig[g, g] ** 0.5 * o.sig[h, h] ** 0.5))
    c.frame("inputs unchanged", *(list(X.values()) + list(y.values())))


@contract("C18", [E_ + "jacob", E_ + "clik"], cases=[dict(G=g) for g in (2, 3)], draws=4, note="log|det| = sum log|diag U| is an axiom of SuperLU")
def objective(c, G):
    n = c.dim("n", 8, 30)
    lam = c.array("lam", G) if c.symbolic else K.reg(c, "lam", c.rng.uniform(-0.9, 0.9, G))
    w = K.lik_weights(c, "W", n, None if c.symbolic else lam, True)
    W = c.wd(w)
    E = c.array("E", n, G, style="plain")
    I = c.sparse_mod.identity(n)
    j = c.func(E_ + "jacob")(lam, G, I, w.sparse)
    ref = sum((c.logdet(c.eye(n) - lam[g] * W) if c.symbolic else np.linalg.slogdet(np.eye(n) - lam[g] * W)[1]) for g in range(G))
    c.eq("log Jacobian = sum of log determinants", j, ref)
    v = c.func(E_ + "clik")(lam, n, n / 2, G, E, I, w.sparse)
    F = c.np.hstack([E[:, g:g + 1] - lam[g] * (W @ E[:, g:g + 1]) for g in range(G)])
    c.eq("minus the concentrated log-likelihood", v, (n / 2) * logdet(c, F.T @ F / n) - ref)
    c.frame("inputs unchanged", E, lam)


def clik_ref(c, W, E, lam, n):
    G = len(lam)
    F = c.np.hstack([E[:, g:g + 1] - lam[g] * (W @ E[:, g:g + 1]) for g in range(G)])
    ref = sum((c.logdet(c.eye(n) - lam[g] * W) if c.symbolic else np.linalg.slogdet(np.eye(n) - lam[g] * W)[1]) for g in range(G))
    return (n / 2) * logdet(c, F.T @ F / n) - ref


@contract("C18", [E_ + "BaseSURerrorML.__init__"], cases=[dict(G=g) for g in (2, 3)], num=False, draws=0, timeout=150,
          note="while loop by invariant (termination not claimed); scipy.optimize returns a minimiser of the objective it is given; callee contracts BaseSUR (C17), err_c_loglik_sp (C08)")
def ml_steps(c, G):
    """every step of the ML estimator: GLS in the filtered variables at the lambdas of the step before, covariance of the filtered
    residuals of the step before, then lambdas minimising the system likelihood given the new residuals."""
    n, ks, y, X, w, W = wsys(c, G)
    eps = c.scalar("eps", 0, 1)
    single, joint, st, surs = [], [], {}, []
    l0 = [c.scalar("l0_%d" % g, -1, 1) for g in range(G)]
    f0 = [c.scalar("f0_%d" % g) for g in range(G)]

    def ms(fun, bracket=None, bounds=None, args=(), method=None, options=None, tol=None):
        single.append((fun, bounds, args))
        g = len(single) - 1

        class R:
            x, fun = l0[g], f0[g]
        return R

    def mm(fun, x0, args=(), method=None, bounds=None, **kw):
        joint.append((fun, x0, args, bounds))

        class R:
            x, fun = c.array("lj%d" % len(joint), G), c.scalar("fj%d" % len(joint))
        st["res"] = (R.x, R.fun)
        return R
    c.stub("sur_error:minimize_scalar", ms)
    c.stub("sur_error:minimize", mm)
    ob, oE, ol = {g: c.array("ob%d" % g, ks[g], 1) for g in range(G)}, c.array("oE", n, G), c.scalar("ol")

    def sur(yy, xx, iter=False, **kw):
        surs.append((yy, xx, iter))

        class S:
            bigE, bSUR, llik = oE, ob, ol
        return S
    c.stub("sur_error:BaseSUR", sur)

    def enter(L):
        c.same("starting values from equation by equation ML", len(single), G)
        t = c.scalar("t")
        for g in range(G):
            fun, bounds, args = single[g]
            c.same("search interval of equation %d" % g, [float(v) for v in bounds], [-1.0, 1.0])
            ys, xs = y[g] - t * (W @ y[g]), X[g] - t * (W @ X[g])
            e = ys - xs @ (c.inv(xs.T @ xs) @ (xs.T @ ys))
            c.eq("objective of equation %d" % g, fun(t, *args), n / 2 * c.np.log((e.T @ e)[0, 0] / n) - c.logdet(c.eye(n) - t * W))
            c.eq("start: lambda of equation %d" % g, L["lam"][g, 0], l0[g])
        c.eq("start: sum of the objectives", L["fun1"], sum(f0[1:], f0[0]))
        c.true("start: residuals of the iterated SUR", L["bigE"] is oE and surs[0][2] is True)
        s = dict(L)
        st["lam"], st["E"] = c.array("hlam", G, 1), c.array("hE", n, G)
        st["b"], k = {g: c.array("hb%d" % g, ks[g], 1) for g in range(G)}, sum(ks[1:], ks[0])
        st["V"], st["S"], st["f1"], st["f0"] = c.array("hV", k, k), c.array("hS", G, G, symmetric=True), c.scalar("hf1"), c.scalar("hf0")
        s.update(lam=st["lam"], bigE=st["E"], fun0=st["f0"], fun1=st["f1"], b1=st["b"], varb1=st["V"], sig1=st["S"])
        return s

    def back(L, was):
        lam = [st["lam"][g, 0] for g in range(G)]
        ys, Xs = fsys(c, y, X, W, lam)
        E = st["E"]
        F = c.np.hstack([E[:, g:g + 1] - lam[g] * (W @ E[:, g:g + 1]) for g in range(G)])
        c.eq("covariance of the filtered residuals of the step before", L["sig1"], F.T @ F / n)
        b, V = gls_spec(c, ys, Xs, L["sig1"])
        c.eq("coefficients solve the GLS system filtered at the lambdas of the step before", stack(c, L["b1"]), b)
        c.eq("varb of this step", L["varb1"], V)
        for g in range(G):
            c.eq("residuals of this step, equation %d" % g, L["bigE"][:, g:g + 1], y[g] - X[g] @ L["b1"][g])
        c.same("one joint optimisation per step", len(joint), 1)
        fun, x0, args, bounds = joint[0]
        c.true("one pair of bounds per lambda, inside (-1, 1) where I - lambda W can be inverted",
               len(bounds) == G and all(-1 < float(a) <= -0.99 and 0.99 <= float(b) < 1 for a, b in bounds))
        t = c.array("tl", G)
        c.eq("objective of the joint optimisation at any point", fun(t, *args), clik_ref(c, W, L["bigE"], [t[g] for g in range(G)], n))
        for g in range(G):
            c.eq("lambda of this step is the minimiser %d" % g, L["lam"][g, 0], st["res"][0][g])
        c.eq("objective value of this step", L["fun1"], st["res"][1])
        c.eq("objective value of the step before", L["fun0"], st["f1"])
    c.loop("sur_error:BaseSURerrorML.__init__", enter, back)
    o = c.func(E_ + "BaseSURerrorML")(y, X, w, epsilon=eps)
    c.true("reports the last step", o.bSUR is st["b"] and o.varb is st["V"] and o.sig is st["S"] and o.lamsur is st["lam"] and o.bigE is st["E"])
    c.eq("reported log-likelihood", o.cliksurerr, -st["f1"])
    c.eq("log-likelihood of independent equations", o.clikerr, -sum(f0[1:], f0[0]))
    for g in range(G):
        c.eq("lambdas of independent equations", o.lamols[g, 0], l0[g])
    c.true("SUR without spatial effects kept", o.llik is ol and o.bSUR0 is ob)
    c.true("stops at convergence only", c.np.abs(st["f0"] - st["f1"]) <= eps)


@contract("C18", [D + "surLMe", D + "surLMlag"], cases=[dict(G=g) for g in (2, 3)], draws=4, timeout=150)
def lm_tests(c, G):
    n, ks, y, X, w, W = wsys(c, G, kind="gen")
    E, P = c.array("E", n, G, style="plain"), c.array("P", n, G, style="plain")
    S = pd2(c, "S", G)
    k = sum(ks[1:], ks[0])
    Si = c.inv(S)
    tWW, tW = c.tr(W @ W), c.tr(W.T @ W)
    if not c.symbolic:
        c.assume(np.linalg.cond(S) < 1e3 and all(np.linalg.cond(X[r]) < 1e3 for r in X))
    v, df, p = c.func(D + "surLMe")(G, w.sparse, E, S)

    def quad(sc, I):
        a = c.np.array([sc])
        return (a @ c.inv(c.np.array(I)) @ a.T)[0, 0]
    we = W @ E
    sc = [sum(Si[g, h] * (E[:, g:g + 1].T @ we[:, h:h + 1])[0, 0] for g in range(G)) for h in range(G)]
    I = [[Si[g, h] * S[g, h] * tW + (tWW if g == h else 0) for h in range(G)] for g in range(G)]
    ref = quad(sc, I)
    c.eq("LM error statistic", v, ref, tol=1e-6)
    c.same("degrees of freedom", df, G)
    c.eq("p-value", p, c.chi2sf(v, G))
    # LM lag: X b_g replaced by P, any positive definite varb
    if c.symbolic:
        V = c.array("V", c.np.vstack([X[g].T for g in range(G)]).shape[0], k)
        V = c.inv(c.np.vstack([c.np.hstack([(X[r].T @ X[t]) * Si[r, t] for t in range(G)]) for r in range(G)]))
    else:
        V = gls_num(y, X, S)[1]
    v, df, p = c.func(D + "surLMlag")(G, w.sparse, y, X, E, P, S, V)
    sc = [sum(Si[g, h] * (E[:, g:g + 1].T @ (W @ y[h]))[0, 0] for g in range(G)) for h in range(G)]
    wp = W @ P
    Ir = [[I[g][h] + Si[g, h] * (wp[:, g:g + 1].T @ wp[:, h:h + 1])[0, 0] for h in range(G)] for g in range(G)]
    B = c.np.vstack([c.np.hstack([(X[g].T @ wp[:, h:h + 1]) * Si[g, h] for h in range(G)]) for g in range(G)])
    M = c.np.array(Ir) - B.T @ V @ B
    if not c.symbolic:
        c.assume(np.linalg.cond(M) < 1e6)
    a = c.np.array([sc])
    c.eq("LM lag statistic", v, (a @ c.inv(M) @ a.T)[0, 0], tol=1e-6)
    c.same("degrees of freedom (lag)", df, G)
    c.eq("p-value (lag)", p, c.chi2sf(v, G))
    c.frame("inputs unchanged", E, P, S, *(list(X.values()) + list(y.values())))


@contract("C18", [E_ + "surerrvm"], cases=[dict(G=g) for g in (2, 3)], symcases=[dict(G=2)], draws=3, timeout=120)
def information(c, G):
    """inverse of the information matrix of (lambda, sigma): tr(O^-1 dO O^-1 dO)/2 of the multivariate normal."""
    n = c.dim("n", 6, 10)
    w = c.weights("W", n, "row")
    W = c.wd(w)
    lam = c.array("lam", G, 1) if c.symbolic else K.reg(c, "lam", c.rng.uniform(-0.7, 0.7, (G, 1)))
    S = pd2(c, "S", G)
    if not c.symbolic:
        c.assume(np.linalg.cond(S) < 1e3)
    vm = c.func(E_ + "surerrvm")(n, G, w, lam, S)
    Si = c.inv(S)
    Ds = [W @ c.inv(c.eye(n) - lam[g, 0] * W) for g in range(G)]
    P = [(i, j) for i in range(G) for j in range(i, G)]
    N = G + len(P)
    I = [[0] * N for _ in range(N)]
    for a in range(G):
        for b in range(G):
            I[a][b] = Si[a, b] * S[a, b] * c.tr(Ds[a].T @ Ds[b]) + (c.tr(Ds[a] @ Ds[a]) if a == b else 0)
        for q, (i, j) in enumerate(P):
            if a in (i, j):
                I[a][G + q] = I[G + q][a] = Si[i, j] * c.tr(Ds[a])
    for p, (i, j) in enumerate(P):
        for q, (h, k) in enumerate(P):
            v = Si[i, h] * Si[j, k] + Si[i, k] * Si[j, h]
            I[G + p][G + q] = n * v * (0.5 if i == j else 1) * (0.5 if h == k else 1)
    if c.symbolic:
        # diagonal-diagonal entries: half of s_ih^2 (i = j, h = k)
        c.eq("inverse information matrix", vm, c.inv(c.np.array(I)))
        return
    I = np.array(I, float)
    c.eq("inverse information matrix", vm, np.linalg.inv(I), tol=1e-6)
    from scipy.linalg import block_diag

    def om(th):
        Q = np.zeros((G, G))
        for q, (i, j) in enumerate(P):
            Q[i, j] = Q[j, i] = th[G + q]
        B = block_diag(*[np.linalg.inv(np.eye(n) - th[g] * W) for g in range(G)])
        return B @ np.kron(Q, np.eye(n)) @ B.T
    th = np.concatenate([lam[:, 0], [S[i, j] for i, j in P]])
    O = np.linalg.inv(om(th))
    d = []
    for a in range(N):
        h = 1e-5 * max(1.0, abs(th[a]))
        e = np.zeros(N)
        e[a] = h
        d.append(O @ (om(th + e) - om(th - e)) / (2 * h))
    F = np.array([[0.5 * np.trace(d[a] @ d[b]) for b in range(N)] for a in range(N)])
    c.eq("information of the multivariate normal", I, F, tol=1e-4, scale=float(np.abs(F).max()))
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ public classes (concrete)
def filt_num(W, lam, d):
    return {g: d[g] - lam[g] * (W @ d[g]) for g in d}


def reg_sys(c, d, kw, reg):
    G = d.G
    X, rs = dict(d.bigX), None
    names = {g: list(kw["name_bigX"][g]) for g in range(G)}
    if reg:
        rg = with_regimes(c, d, kw)
        for g in range(G):
            X[g], rs = expand(d.bigX[g], rg)
            names[g] = ["%s_%s" % (r, v) for r in rs for v in names[g]]
    return X, rs, names


@contract("C18", [E_ + "SURerrorGM.__init__", E_ + "BaseSURerrorGM.__init__"], sym=False, cases=[dict(reg=False), dict(reg=True)], draws=5)
def public_gm(c, reg):
    kind, d, kw = zoo.system_args(c, "SURerrorGM", n=c.dim("n", 60, 80) if reg else None)
    G, W, y, n = d.G, d.W, d.bigy, d.n
    X, rs, names = reg_sys(c, d, kw, reg)
    o = zoo.build(c, kind, kw)
    E0 = np.hstack([K.ols_ref(y[g], X[g])[1] for g in range(G)])
    lam = o.lamsur[:, 0]
    for g in range(G):
        m = c.func(E_ + "_momentsGM_sur_Error")(d.w.sparse, E0)[g]
        c.eq("lambda minimises the moment criterion", lam[g], c.func("utils:optim_moments")(m), tol=1e-4, scale=1.0)
    F = E0 - (W @ E0) * lam
    c.eq("covariance of the filtered OLS residuals", o.sig, F.T @ F / n, tol=1e-6)
    b, V = gls_num(filt_num(W, lam, y), filt_num(W, lam, X), o.sig)
    c.eq("coefficients solve the filtered GLS system", dictmat(o.bSUR), b, tol=1e-6)
    c.eq("varb", o.varb, V, tol=1e-6)
    c.eq("residuals", o.bigE, np.hstack([y[g] - X[g] @ o.bSUR[g] for g in range(G)]))
    check_inference(c, o, b, V, o.sur_inf, G)
    check_surchow(c, o, b, V, G, [X[g].shape[1] for g in range(G)])
    c.same("names", {g: list(o.name_bigX[g]) for g in range(G)}, names)
    if reg:
        check_regchow(c, o, b, V, G, [d.bigX[g].shape[1] for g in range(G)], [0] * G, len(rs))
    c.frame_all("inputs unchanged")


@contract("C18", [E_ + "SURerrorML.__init__", E_ + "BaseSURerrorML.__init__"], sym=False, cases=[dict(reg=False), dict(reg=True)], draws=3)
def public_ml(c, reg):
    kind, d, kw = zoo.system_args(c, "SURerrorML", n=c.dim("n", 60, 80) if reg else None, neq=2)
    G, W, y, n = d.G, d.W, d.bigy, d.n
    X, rs, names = reg_sys(c, d, kw, reg)
    kw["vm"], kw["spat_diag"] = True, True
    o = zoo.build(c, kind, kw)
    lam = o.lamsur[:, 0]
    c.assume(np.abs(lam).max() < 0.99)
    b, V = gls_num(filt_num(W, lam, y), filt_num(W, lam, X), o.sig)
    E = np.hstack([y[g] - X[g] @ o.bSUR[g] for g in range(G)])
    c.eq("residuals", o.bigE, E)
    F = E - (W @ E) * lam
    c.eq("coefficients solve the filtered GLS system at convergence", dictmat(o.bSUR), b, tol=2e-3, scale=float(np.abs(b).max()))
    c.eq("covariance of the filtered residuals at convergence", o.sig, F.T @ F / n, tol=5e-3, scale=float(np.abs(o.sig).max()))
    ld = sum(np.linalg.slogdet(np.eye(n) - lam[g] * W)[1] for g in range(G))
    ll = -n / 2 * np.linalg.slogdet(F.T @ F / n)[1] + ld
    const = -n / 2 * G * (1 + np.log(2 * np.pi))
    c.eq("log-likelihood at the estimates", o.surerrllik, const + ll, tol=1e-9)

    def prof(l):
        Q = E - (W @ E) * l
        return -n / 2 * np.linalg.slogdet(Q.T @ Q / n)[1] + sum(np.linalg.slogdet(np.eye(n) - l[g] * W)[1] for g in range(G))
    best = max(prof(np.clip(lam + s * np.array(v), -0.999, 0.999)) for s in (1e-2, 5e-2, 0.2, 0.5) for v in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)))
    c.ge0("lambdas maximise the likelihood of the residuals", ll - best + 1e-5)
    # single equation fits
    le = 0.0
    for g in range(G):
        f = lambda q: conc_err(W, y[g], X[g], q)
        ml_grid(c, "independent equations: lambda maximises its likelihood", float(o.lamols[g, 0]), f)
        le += f(float(o.lamols[g, 0]))
    c.eq("log-likelihood of independent equations", o.errllik, le, tol=1e-8)
    M = G * (G - 1) // 2
    lr = 2 * (o.surerrllik - o.errllik)
    c.eq("LR test on diagonal covariance", o.lrtest, (lr, M, c.stats.chi2.sf(lr, M)))
    s = c.func("sur:BaseSUR")(y, X, iter=True)
    c.eq("log-likelihood of SUR", o.llik, s.llik)
    lr = 2 * (o.surerrllik - s.llik)
    c.eq("LR test on the lambdas", o.likrlambda, (lr, G, c.stats.chi2.sf(lr, G)))
    check_inference(c, o, dictmat(o.bSUR), o.varb, o.sur_inf, G)
    check_surchow(c, o, dictmat(o.bSUR), o.varb, G, [X[g].shape[1] for g in range(G)])
    vm = c.func(E_ + "surerrvm")(n, G, d.w, o.lamsur, o.sig)
    c.eq("variance of lambda and sigma", o.vm, vm)
    VL = vm[:G, :G]
    c.eq("lambda standard errors", np.ravel(o.lamsetp[0]), np.sqrt(np.diag(VL)))
    R = np.zeros((G - 1, G))
    for g in range(1, G):
        R[g - 1, 0], R[g - 1, g] = 1, -1
    wt = float(((R @ lam).T @ np.linalg.solve(R @ VL @ R.T, R @ lam)))
    c.eq("equality of the lambdas", o.lamtest, (wt, G - 1, c.stats.chi2.sf(wt, G - 1)), tol=1e-6)
    wt = float(lam @ np.linalg.solve(VL, lam))
    c.eq("joint significance of the lambdas", o.joinlam, (wt, G, c.stats.chi2.sf(wt, G)), tol=1e-6)
    c.same("names", {g: list(o.name_bigX[g]) for g in range(G)}, names)
    if reg:
        check_regchow(c, o, dictmat(o.bSUR), o.varb, G, [d.bigX[g].shape[1] for g in range(G)], [0] * G, len(rs))
    c.frame_all("inputs unchanged")


def dense_(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


@contract("C18", ["sur_lag:SURlagIV.__init__", "sur_lag:_get_spatial_lag"], sym=False,
          cases=[dict(reg=r, sep=s) for r, s in ((False, False), (True, False), (True, True))], draws=5)
def public_lag(c, reg, sep):
    """3SLS with the spatial lag of each dependent variable endogenous and spatial lags of X (and of the instruments) as instruments."""
    kind, d, kw = zoo.system_args(c, "SURlagIV", n=c.dim("n", 70, 90) if reg else None)
    G, W, y, n = d.G, d.W, d.bigy, d.n
    X, rs, names = reg_sys(c, d, kw, reg)
    Y, Q = dict(d.bigyend), dict(d.bigq)
    ny = {g: list(kw.get("name_bigyend", {}).get(g, [])) for g in range(G)}
    nq = {g: list(kw.get("name_bigq", {}).get(g, [])) for g in range(G)}
    yn = kw["name_bigy"]
    Z0 = np.zeros((n, 0))
    ky = []
    for g in range(G):
        wy = W @ y[g]
        ye, q = Y.get(g, Z0), Q.get(g, Z0)
        if sep:
            ye = np.hstack((ye, wy))
            ny[g] = ny[g] + ["W_" + yn[g]]
        ky.append(ye.shape[1])
        if reg:
            ye, _ = expand(ye, kw["regimes"])
            q, _ = expand(q, kw["regimes"])
            ny[g] = ["%s_%s" % (r, v) for r in rs for v in ny[g]]
            nq[g] = ["%s_%s" % (r, v) for r in rs for v in nq[g]]
        if not sep:
            ye = np.hstack((ye, wy))
            ny[g] = ny[g] + ["W_" + yn[g]]
        Y[g], Q[g] = ye, q
    kw["regime_lag_sep"] = sep
    kw["spat_diag"] = True
    L = kw["w_lags"]
    H, Z, ZH, E0 = {}, {}, {}, []
    for g in range(G):
        ins, lab = [X[g], Q[g]], list(nq[g])
        cur, pre = X[g][:, 1:], "W_"
        for l in range(L):
            cur = W @ cur
            ins.append(cur)
            lab += ["W" * l + "W_" + v for v in names[g][1:]]
        if kw.get("lag_q", True) and Q[g].shape[1]:
            cur = Q[g]
            for l in range(L):
                cur = W @ cur
                ins.append(cur)
                lab += ["W" * l + "W_" + v for v in nq[g]]
        nq[g] = lab
        H[g] = np.hstack(ins)
        c.assume(np.linalg.cond(H[g]) < 1e4)
        Z[g] = np.hstack((X[g], Y[g]))
        ZH[g] = H[g] @ np.linalg.lstsq(H[g], Z[g], rcond=None)[0]
        c.assume(np.linalg.cond(ZH[g]) < 1e3)
        E0.append(y[g] - Z[g] @ K.ols_ref(y[g], ZH[g])[0])
    o = zoo.build(c, kind, kw)
    E0 = np.hstack(E0)
    c.eq("covariance of the 2SLS residuals", o.sig, E0.T @ E0 / n, tol=1e-5)
    b, V = gls_num(y, ZH, o.sig)
    c.eq("coefficients solve the projected GLS system", dictmat(o.b3SLS), b, tol=1e-5)
    c.eq("varb", o.varb, V, tol=1e-5)
    c.eq("residuals", o.bigE, np.hstack([y[g] - Z[g] @ o.b3SLS[g] for g in range(G)]))
    ks = [Z[g].shape[1] for g in range(G)]
    check_inference(c, o, b, V, o.tsls_inf, G)
    check_surchow(c, o, b, V, G, ks)
    c.same("names of X", {g: list(o.name_bigX[g]) for g in range(G)}, names)
    c.same("names of endogenous variables", {g: list(o.name_bigyend[g]) for g in range(G)}, ny)
    c.same("names of instruments", {g: list(o.name_bigq[g]) for g in range(G)}, nq)
    if not sep:
        R = np.zeros((G, sum(ks)))
        R[range(G), np.cumsum(ks) - 1] = 1
        r = R @ b
        wt = float((r.T @ np.linalg.solve(R @ V @ R.T, r))[0, 0])
        c.eq("joint significance of the spatial lags", o.joinrho, (wt, G, c.stats.chi2.sf(wt, G)), tol=1e-5)
    if reg:
        check_regchow(c, o, b, V, G, [d.bigX[g].shape[1] for g in range(G)], ky, len(rs), fixed=0 if sep else 1)
    c.frame_all("inputs unchanged")


@contract("C18", ["sur_lag:SURlagIV.__init__"], sym=False, draws=2)
def lag_refusals(c):
    _, d, kw = zoo.system_args(c, "SURlagIV")
    bad = dict(kw)
    bad["w"] = None
    c.raises("weights required", lambda: zoo.build(c, "SURlagIV", bad))
    bad = dict(kw)
    bad["w_lags"] = 0
    c.raises("lag order at least one", lambda: zoo.build(c, "SURlagIV", bad))
    _, d, kt = zoo.system_args(c, "ThreeSLS")
    bad = dict(bigy=d.bigy, bigX=d.bigX, bigyend=d.bigyend, w=d.w)
    c.raises("instruments required", lambda: zoo.build(c, "SURlagIV", bad))


@contract("C18", ["summary_output:summary_diag_sur", "summary_output:SUR_multi", "summary_output:summary_errorcorr"], sym=False,
          cases=[dict(kind=k, reg=r) for k in ("SURerrorGM", "SURerrorML", "SURlagIV") for r in (False, True)], draws=2,
          bounded="random systems n<=80, printed digits")
def printed(c, kind, reg):
    """the summary prints every test of the system under its name."""
    _, d, kw = zoo.system_args(c, kind, n=c.dim("n", 60, 80), neq=2 if kind == "SURerrorML" else None, diff=False)
    if kind == "SURerrorML":
        kw.update(vm=True, spat_diag=True)
    elif kind == "SURlagIV":
        kw.update(spat_diag=True)
    if reg:
        reg_sys(c, d, kw, True)
    printed_system(c, zoo.build(c, kind, kw))


# ------------------------------------------------------------------ public constructors
@contract("C18", [E_ + "SURerrorGM.__init__"], num=False, draws=0, cases=[dict(ks=(3, 3), named=True), dict(ks=(2, 3), named=False)],
          note="callees (input checks, base class, tests, printing) by their contracts")
def gm_constructor(c, ks, named):
    system_constructor(c, "sur_error", "SURerrorGM", E_ + "BaseSURerrorGM", ks, named=named)


@contract("C18", [E_ + "SURerrorML.__init__"], num=False, draws=0, cases=[dict(ks=(3, 3), diag=True, named=True), dict(ks=(2, 3), diag=False, named=False), dict(ks=(2, 2, 2), diag=True, named=False)],
          note="callees (input checks, base class, information matrix, tests, printing) by their contracts")
def ml_constructor(c, ks, diag, named):
    rec = []
    M = len(ks) + len(ks) * (len(ks) + 1) // 2

    def info(n_, n_eq, w, lam, sig):
        V = c.array("I", M, M, symmetric=True)
        rec.append((n_eq, w, lam, sig, V))
        return V
    c.stub(E_ + "surerrvm", info)

    def after(o, R, calls, test, z, W, n, G):
        s = R["self"]
        const = -(n / 2.0) * (G * (1.0 + c.np.log(2.0 * c.np.pi)))
        c.eq("likelihood without error correlation", o.errllik, const + s["clikerr"])
        c.eq("likelihood", o.surerrllik, const + s["cliksurerr"])
        if not diag:
            c.true("no tests unless asked for", all(getattr(o, a) is None for a in ("lrtest", "likrlambda", "vm", "lamsetp", "lamtest", "joinlam")))
            return
        lr, df, p = o.lrtest
        c.eq("LR of diagonal covariance", lr, 2 * (s["cliksurerr"] - s["clikerr"]))
        c.same("its df", int(df), G * (G - 1) // 2)
        c.eq("its p", p, c.chi2sf(lr, G * (G - 1) // 2))
        lr, df, p = o.likrlambda
        c.eq("LR of no spatial autocorrelation", lr, 2 * (const + s["cliksurerr"] - s["llik"]))
        c.same("its df", int(df), G)
        c.eq("its p", p, c.chi2sf(lr, G))
        c.structure(len(rec) == 1, "calls of surerrvm")
        n_eq, w_, lam, sig, V = rec[0]
        c.true("information of the estimates", n_eq == G and w_ is W and lam is s["lamsur"] and sig is s["sig"] and o.vm is V)
        v = V[:G, :G]
        r = calls.get("lam_setp", [])
        c.structure(len(r) == 1 and len(r[0]) == 3, "calls of lam_setp")
        c.true("inference of the spatial parameters", o.lamsetp is r[0]["result"])
        a = list(r[0].values())
        c.eq("inference is given the spatial parameters", a[0], lam)
        c.eq("inference is given their covariance", a[1], v)
        Rm = np.hstack((np.ones((G - 1, 1)), -np.eye(G - 1)))

        def wald(Rm):
            d = c.np.array(Rm) @ lam
            return (d.T @ c.inv(c.np.array(Rm) @ v @ c.np.array(Rm).T) @ d)[0, 0]
        for nm, t, Rm_ in (("equal spatial parameters", o.lamtest, Rm), ("all spatial parameters zero", o.joinlam, np.eye(G))):
            c.eq("statistic of " + nm, t[0], wald(Rm_))
            c.same("df of " + nm, int(t[1]), len(Rm_))
            c.eq("p of " + nm, t[2], c.chi2sf(t[0], len(Rm_)))
    system_constructor(c, "sur_error", "SURerrorML", E_ + "BaseSURerrorML", ks, marks=("epsilon",), flags=dict(spat_diag=diag, nonspat_diag=diag, vm=diag), after=after, named=named)


@contract("C18", ["sur_lag:SURlagIV.__init__", "sur_lag:_get_spatial_lag"], num=False, draws=0,
          cases=[dict(ks=(3, 3), endog=None, lag=(1, True), named=True), dict(ks=(2, 3), endog=1, lag=(1, True), named=True), dict(ks=(2, 3), endog=1, lag=(1, False), named=False),
                 dict(ks=(2, 2), endog=1, lag=(2, True), named=True), dict(ks=(2, 2), endog=1, lag=(3, True), named=True), dict(ks=(2, 2), endog=1, lag=(2, False), named=True), dict(ks=(2, 2), endog=None, lag=(3, True), named=False)],
          note="callees (input checks, base class, tests, printing) by their contracts")
def lag_constructor(c, ks, endog, lag, named):
    """the spatial lag of y is endogenous in every equation; instruments [Q, WX .. W^pX, WQ .. W^pQ]."""
    def after(o, R, calls, test, z, W, n, G):
        r = calls.get("sur_joinrho", [])
        c.structure(len(r) == 1 and len(r[0]) == 5, "calls of sur_joinrho")
        a = list(r[0].values())
        c.true("test of all spatial parameters", o.joinrho is r[0]["result"] and a[2] is R["b"])
        c.eq("it is given the covariance", a[3], R["V"])
    system_constructor(c, "sur_lag", "SURlagIV", "sur:BaseThreeSLS", ks, endog=endog, lag=lag, bname="b3SLS", flags=dict(spat_diag=True), after=after, named=named)
