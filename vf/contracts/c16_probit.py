"""C16: probit likelihood, score, Hessian, covariance, predictions, diagnostics."""
import numpy as np

from ..engine import blank, contract
from . import common as K
from . import zoo

P, D = "probit:", "diagnostics_probit:"


class _R:
    pass


def instance(c, n, k, optim="newton", **kw):
    """a BaseProbit object before estimation: only the attributes __init__ sets."""
    o = blank(c.func(P + "BaseProbit"))
    o.y = binary(c, n)
    o.x = c.array("x", n, k)
    o.n, o.k, o.optim, o.bstart, o.maxiter = n, k, optim, kw.get("bstart", False), 100
    return o


def binary(c, n, name="y"):
    if c.symbolic:
        return c.array(name, n, 1)
    y = (c.rng.rand(n, 1) < c.rng.uniform(0.3, 0.7)) * 1.0
    y[0], y[1] = 0.0, 1.0
    c.inputs[name] = y
    c.copies[name] = y.copy()
    return y


def lik(c, y, x, b):
    """log-likelihood, score and Hessian of the probit model."""
    N = c.stats.norm
    np_ = c.np
    xb = x @ b
    q = 2 * y - 1
    z = q * xb
    lam = q * N.pdf(z) / N.cdf(z)
    return np_.log(N.cdf(z)).sum(), x.T @ lam, -(x.T @ (lam * (lam + xb) * x))


@contract("C16", [P + "BaseProbit.ll", P + "BaseProbit.gradient", P + "BaseProbit.hessian"], draws=8)
def likelihood(c):
    n, k = c.dim("n", 10, 40), c.dim("k", 1, 4)
    o = instance(c, n, k)
    b = c.array("b", k, 1, style="plain")
    ll, g, H = lik(c, o.y, o.x, b)
    if not c.symbolic:
        z = (2 * o.y - 1) * (o.x @ b)
        c.assume(z.min() > -8)
    c.eq("log-likelihood", o.ll(b), ll)
    c.eq("score", o.gradient(b), g[:, 0] if c.symbolic else g.ravel())
    c.eq("Hessian", o.hessian(b), H)
    if not c.symbolic:
        sc = np.abs(o.x).max()
        h = 1e-5 / sc
        for j in range(k):
            e = np.zeros((k, 1))
            e[j] = h
            fd = (float(np.sum(o.ll(b + e))) - float(np.sum(o.ll(b - e)))) / (2 * h)
            c.eq("score is the derivative of the log-likelihood", float(g[j, 0]), fd, tol=1e-5, scale=sc * n)
            fh = (np.asarray(o.gradient(b + e)) - np.asarray(o.gradient(b - e))) / (2 * h)
            c.eq("Hessian is the derivative of the score", H[j], fh, tol=1e-5, scale=sc * sc * n)
    c.frame_all("inputs unchanged")


@contract("C16", [P + "newton"], sym=True, num=False, note="loop contract: arbitrary iterate; each step subtracts H^-1 g")
def newton_steps(c):
    k = c.dim("k")
    maxiter = 100
    seen = {}
    start = c.array("b0", k, 1)

    def f(p):
        seen["f"] = p
        return c.array("fval", 1)

    H, g = c.array("H", k, k, symmetric=True), c.array("g", k)

    def hess(p):
        seen["H"] = p
        return H

    def grad(p):
        seen["g"] = p
        return g
    st = {}

    def enter(L):
        c.eq("starts at the starting values", L["par_hat0"], start)
        c.eq("no iteration yet", L["iteration"], 0)
        st["b"], st["it"], st["m"] = c.array("b", k, 1), c.dim("it1") - 1, c.scalar("m")
        c.assume(st["it"] <= maxiter)
        return dict(L, par_hat0=st["b"], iteration=st["it"], m=st["m"])

    def back(L, s):
        c.eq("Hessian at the current iterate", seen["H"], st["b"])
        c.eq("score at the current iterate", seen["g"], st["b"])
        step = c.inv(H) @ g.reshape((k, 1))
        c.eq("Newton step b - H^-1 g", L["par_hat0"], st["b"] - step)
        c.eq("iteration count", L["iteration"], st["it"] + 1)
        c.true("never above the limit", L["iteration"] <= maxiter)
        c.eq("criterion -g'H^-1 g", L["m"], -(g.reshape((1, k)) @ step))
    c.loop("probit:newton", enter, back)
    b, ll, warn = c.func(P + "newton")(f, start, grad, hess, maxiter)
    c.eq("returns the last iterate", b, st["b"])
    c.eq("objective at the last iterate", seen["f"], st["b"])
    c.eq("objective value", ll, c.inputs["fval"])
    if warn == 0:
        c.true("no warning: the criterion was met", st["m"] < 1e-4)
    else:
        c.true("warning: iteration limit", st["it"] >= maxiter)


@contract("C16", [P + "BaseProbit.__init__", P + "BaseProbit.par_est"], draws=4, cases=[dict(optim=o, bs=b) for o in ("newton", "bfgs", "ncg") for b in (False, True)],
          symcases=[dict(optim="newton", bs=False)], timeout=120, note="newton: callee contract (newton_steps); scipy optimisers trusted")
def estimation(c, optim, bs):
    np_ = c.np
    if c.symbolic:
        n, k = c.dim("n"), c.dim("k")
        y, x = binary(c, n), c.array("x", n, k)
        b, l, rec = c.array("b", k, 1), c.array("l", 1), []
        c.stub("probit:newton", lambda flogl, start, fgrad, fhess, maxiter: rec.append((flogl, start, fgrad, fhess, maxiter)) or (b, l, 0))
    else:
        n, k = c.dim("n", 30, 80), c.dim("k", 2, 4)
        x = np.hstack([np.ones((n, 1)), c.array("x", n, k - 1, style="plain")])
        t = x @ c.rng.uniform(-1, 1, (k, 1)) + c.rng.randn(n, 1)
        y = (t > 0) * 1.0
        c.assume(3 < y.sum() < n - 3)
    o = c.func(P + "BaseProbit")(y, x, optim=optim, **(dict(bstart=[0.1] * k) if bs else {}))
    b = o.betas
    ll, g, H = lik(c, y, x, b)
    if c.symbolic:
        fl, start, gr, he, mi = rec[0]
        p = c.array("p", k, 1)
        l2, g2, H2 = lik(c, y, x, p)
        c.structure(len(rec) == 1, "one optimisation")
        c.eq("objective is minus the log-likelihood", fl(p), -l2)
        c.eq("derivative: score", gr(p), g2[:, 0])
        c.eq("second derivative: Hessian", he(p), H2)
        c.eq("starting values: least squares", start, c.inv(x.T @ x) @ (x.T @ y))
        c.same("iteration limit", mi, 100)
        c.eq("logl", o.logl, -l)
        c.eq("betas", b, c.inputs["b"])
    else:
        c.assume(np.abs(b).max() < 15 and not o.warning)          # no separation
        c.eq("logl at the estimates", o.logl, float(ll), tol=1e-6)
        # distance to the maximum in standard errors
        V = -np.linalg.inv(H)
        d = V @ g
        c.true("score vanishes at the estimates", float((g.T @ V @ g).ravel()[0]) < 1e-4)
        # where the concave likelihood is not flat there is one maximum: a Newton polish from the estimates must stay there
        q = b - np.linalg.solve(H, g)
        c.eq("estimates at the maximum", b, q, tol=1e-3, scale=1 + np.abs(b).max())
        c.assume(optim == "newton" or True)
    c.eq("covariance = -(Hessian)^-1", o.vm, -c.inv(H), tol=1e-6)
    xb = x @ b
    N = c.stats.norm
    Phi, phi = N.cdf(xb), N.pdf(xb)
    c.eq("linear index", o.xb, xb)
    c.eq("predicted probabilities", o.predy, Phi)
    c.eq("density", o.phiy, phi)
    c.eq("binary prediction", o.predybin * 1, (Phi > 0.5) * 1)
    c.eq("naive residuals", o.u_naive, y - Phi)
    c.eq("generalised residuals", o.u_gen, phi * (y - Phi) / (Phi * (1 - Phi)), tol=1e-6)
    c.eq("means of x", o.xmean, (x.sum(axis=0) / n).reshape(k, 1) if not c.symbolic else (x.T @ c.ones(n, 1)) / n)
    c.same("n", o.n, n)
    c.same("k", o.k, k)
    c.frame_all("inputs unchanged")


def reg(c, k=None):
    r = _R()
    n, k = c.dim("n", 12, 40), k or c.dim("k", 2, 5)
    r.n, r.k = n, k
    r.y = binary(c, n)
    if c.symbolic:
        r.predybin = c.array("yb", n, 1)
    else:
        r.predybin = (c.rng.rand(n, 1) < 0.5) * 1
    if c.symbolic:
        r.betas, r.xmean = (c.np.vstack((c.array(a + "0", 1, 1), c.array(a, k, 1))) for a in ("b", "xm"))
        v = c.array("Vc", 1, k)
        r.vm = c.np.vstack((c.np.hstack((c.array("V0", 1, 1), v)), c.np.hstack((v.T, c.array("V", k, k, symmetric=True)))))
        r.k = c.layout(r.betas).shape[0]
    else:
        r.betas, r.xmean = c.array("b", k, 1, style="plain"), c.array("xm", k, 1, style="plain")
        V = c.array("V", k, k)
        r.vm = V @ V.T
    r.logl, r.L0 = c.scalar("ll", -90, -10), c.scalar("l0", -190, -91)
    return r


@contract("C16", [D + "pred_table", D + "probit_fit", D + "probit_lrtest", D + "mcfad_rho"], draws=8)
def fit_measures(c):
    r = reg(c)
    n, y, p = r.n, r.y, r.predybin
    LR = c.func(D + "probit_lrtest")(r)
    pbar = y.sum() / n
    l0 = n * (pbar * c.np.log(pbar) + (1 - pbar) * c.np.log(1 - pbar))
    c.eq("constant-only log-likelihood", LR["L0"], l0)
    c.eq("LR", LR["likr"], 2 * (r.logl - l0))
    c.eq("LR p: k - 1 restrictions", LR["p-value"], c.chi2sf(2 * (r.logl - l0), r.k - 1))
    c.eq("LR df", LR["df"], r.k - 1)
    c.eq("McFadden", c.func(D + "mcfad_rho")(r), 1 - r.logl / r.L0)
    if not c.symbolic:
        t = c.func(D + "pred_table")(r)
        yb, pb = y.ravel() == 1, p.ravel() == 1
        want = dict(actpos=yb.sum(), actneg=(~yb).sum(), predpos=pb.sum(), predneg=(~pb).sum(), truepos=(yb & pb).sum(), trueneg=(~yb & ~pb).sum(),
                    falsepos=(~yb & pb).sum(), falseneg=(yb & ~pb).sum())
        for a, v in want.items():
            c.same("prediction table: " + a, float(t[a]), float(v))
    else:
        t = {a: c.array("t" + a, 1, 1, positive=True)[0, 0] for a in ("actpos", "actneg", "truepos", "trueneg")}
    r.predtable = t
    f = c.func(D + "probit_fit")(r)
    c.eq("true positive rate", f["TPR"], 100 * t["truepos"] / t["actpos"])
    c.eq("true negative rate", f["TNR"], 100 * t["trueneg"] / t["actneg"])
    c.eq("balanced accuracy", f["BA"], 50 * t["truepos"] / t["actpos"] + 50 * t["trueneg"] / t["actneg"])
    c.eq("per cent correct", f["PREDPC"], 100 * (t["truepos"] + t["trueneg"]) / n)
    c.frame_all("inputs unchanged")


@contract("C16", [D + "probit_ape"], cases=[dict(scalem=s, kk=k) for s in ("phimean", "xmean") for k in (1, 2, 3)], draws=6,
          note="1 to 3 regressors besides the constant, any n")
def marginal(c, scalem, kk):
    r = reg(c, kk + (not c.symbolic))
    r.scalem = scalem
    n, k, b, xm = r.n, r.k, r.betas, r.xmean
    N = c.stats.norm
    r.phiy = N.pdf(c.array("xb", n, 1, style="plain"))
    scale, sl, slv, se, z = c.func(D + "probit_ape")(r)
    s = r.phiy.sum() / n if scalem == "phimean" else N.pdf((xm.T @ b)[0, 0])
    c.eq("scale", scale.item() if hasattr(scale, "item") else scale, s)
    c.eq("slopes", sl, s * b[1:])
    J = c.eye(k) - (xm.T @ b)[0, 0] * (b @ xm.T)
    V = s * s * (J @ r.vm @ J.T)
    c.eq("delta-method covariance", slv, V[1:, 1:])
    c.eq("standard errors", se * se, V[1:, 1:].diagonal().reshape((k - 1, 1)))
    for i in range(kk):
        zi = s * b[i + 1, 0] / c.np.sqrt(V[i + 1, i + 1])
        c.eq("z", z[i][0], zi)
        c.eq("p", z[i][1], 2 * N.sf(abs(zi)))
    c.frame_all("inputs unchanged")


@contract("C16", [D + "sp_tests", D + "moran_KP"], draws=6)
def spatial_tests(c):
    n = c.dim("n", 12, 40)
    r = _R()
    r.n = n
    r.w = c.weights("W", n, "gen")
    W = c.wd(r.w)
    N = c.stats.norm
    xb = c.array("xb", n, 1, style="plain")
    y = binary(c, n)
    r.predy, r.phiy = N.cdf(xb), N.pdf(xb)
    PQ = r.predy * (1 - r.predy)
    r.u_naive = y - r.predy
    r.u_gen = r.phiy * r.u_naive / PQ
    pink, kp, ps = c.func(D + "sp_tests")(regprob=r)
    ug, un = r.u_gen, r.u_naive
    tww, twpw = c.tr(W @ W), c.tr(W.T @ W)
    s2 = (r.phiy * r.phiy / PQ).sum() / n
    v = (ug.T @ W @ ug)[0, 0] ** 2 / (s2 ** 2 * (tww + twpw))
    c.eq("Pinkse LM", pink[0], v)
    c.eq("Pinkse p", pink[1], c.chi2sf(v, 1))
    WS = W * PQ.reshape((1, n)) if not c.symbolic else W @ c.np.diag(PQ[:, 0])
    den = c.np.sqrt(c.tr(WS @ WS) + c.tr(W.T @ (PQ * W) * 1 @ (c.np.diag(PQ[:, 0]))))
    kpv = (un.T @ W @ un)[0, 0] / den
    c.eq("Kelejian-Prucha", kp[0], kpv)
    c.eq("Kelejian-Prucha p", kp[1], 2 * N.sf(abs(kpv)))
    us = un / c.np.sqrt(PQ)
    v = (us.T @ W @ us)[0, 0] ** 2 / (tww + twpw)
    c.eq("Pinkse-Slade", ps[0], v)
    c.eq("Pinkse-Slade p", ps[1], c.chi2sf(v, 1))
    c.frame_all("inputs unchanged")


@contract("C16", [P + "Probit.__init__"], sym=False, draws=8, cases=[dict(optim=o) for o in ("newton", "bfgs", "ncg")], timeout=120, bounded="random data n<=80")
def probit_class(c, optim):
    n, k = c.dim("n", 30, 80), c.dim("k", 1, 3)
    w = c.weights("W", n, "row")
    x = c.array("x", n, k, style="plain")
    t = 0.3 + x @ c.rng.uniform(-1, 1, (k, 1)) + c.rng.randn(n, 1)
    y = (t > 0) * 1.0
    c.assume(5 < y.sum() < n - 5)
    slx = zoo.pick(c, 0, 0, 1, 2)
    scalem = zoo.pick(c, "phimean", "xmean")
    spat = zoo.flip(c)
    nx = ["x%d" % i for i in range(k)]
    with zoo.quiet():
        o = c.func(P + "Probit")(y, x, w=w if spat or slx or zoo.flip(c) else None, slx_lags=slx, optim=optim, scalem=scalem, spat_diag=spat, name_y="dep", name_x=list(nx))
    X, names = K.design(c, x, nx, w, slx)
    c.assume(not o.warning and np.abs(o.betas).max() < 10 and K.well(X))
    b = np.asarray(o.betas)
    ll, g, H = lik(c, y, X, b)
    c.same("names", list(o.name_x), names)
    c.eq("design", np.asarray(o.x), X)
    V = -np.linalg.inv(H)
    c.true("score vanishes", float((g.T @ V @ g).ravel()[0]) < 1e-4)
    c.eq("logl", o.logl, float(ll), tol=1e-7)
    c.eq("covariance", o.vm, V, tol=1e-6)
    Phi = c.stats.norm.cdf(X @ b)
    c.eq("predicted probabilities", o.predy, Phi)
    c.eq("per cent correct", o.predpc, 100.0 * ((Phi > 0.5) == (y > 0.5)).mean())
    pb = y.mean()
    l0 = n * (pb * np.log(pb) + (1 - pb) * np.log(1 - pb))
    c.eq("L0", o.L0, l0)
    c.eq("LR", o.LR[0], 2 * (float(ll) - l0))
    c.eq("LR p", o.LR[1], c.chi2sf(2 * (float(ll) - l0), X.shape[1] - 1))
    c.eq("pseudo R2", o.mcfadrho, 1 - float(ll) / l0)
    c.eq("standard errors", o.std_err, np.sqrt(np.diag(V)), tol=1e-6)
    z = b.ravel() / np.sqrt(np.diag(V))
    c.eq("z", [v[0] for v in o.z_stat], z, tol=1e-6)
    c.eq("p", [v[1] for v in o.z_stat], 2 * c.stats.norm.sf(np.abs(z)), tol=1e-6)
    s = c.stats.norm.pdf(X @ b).mean() if scalem == "phimean" else float(c.stats.norm.pdf(X.mean(0) @ b).ravel()[0])
    c.eq("slopes", o.slopes, s * b[1:])
    c.same("table rows", list(o.output["var_names"]), names)
    c.eq("table coefficients", o.output["coefficients"].to_numpy(float), b.ravel())
    c.eq("table p-values", o.output["prob"].to_numpy(float), 2 * c.stats.norm.sf(np.abs(z)), tol=1e-6)
    if spat:
        un = y - Phi
        us = un / np.sqrt(Phi * (1 - Phi))
        W = c.wd(w)
        v = float((us.T @ W @ us).ravel()[0]) ** 2 / (np.trace(W @ W) + np.trace(W.T @ W))
        c.eq("Pinkse-Slade", o.PS_error[0], v)
        ug = c.stats.norm.pdf(X @ b) * un / (Phi * (1 - Phi))
        s2 = (c.stats.norm.pdf(X @ b) ** 2 / (Phi * (1 - Phi))).mean()
        c.eq("Pinkse", o.Pinkse_error[0], float((ug.T @ W @ ug).ravel()[0]) ** 2 / (s2 ** 2 * (np.trace(W @ W) + np.trace(W.T @ W))), tol=1e-6)
    c.frame_all("inputs unchanged")


@contract("C16", ["output:_probit_out", "output:_summary_vm"], sym=False, draws=6, bounded="random data n<=80, printed digits")
def printed(c):
    """the summary of a probit prints the fit measures, slopes, tests and covariance under their names."""
    n, k = c.dim("n", 40, 80), c.dim("k", 1, 3)
    w = c.weights("W", n, "row")
    x = c.array("x", n, k, style="plain")
    t = 0.3 + x @ c.rng.uniform(-1, 1, (k, 1)) + c.rng.randn(n, 1)
    y = (t > 0) * 1.0
    c.assume(8 < y.sum() < n - 8)
    scalem = zoo.pick(c, "phimean", "xmean")
    with zoo.quiet():
        o = c.func(P + "Probit")(y, x, w=w, scalem=scalem, vm=True, spat_diag=True, name_y="dep", name_x=["x%d" % i for i in range(k)])
    c.assume(not o.warning and np.abs(o.betas).max() < 10)
    s = o.summary
    Q = lambda label, *v: K.printed(c, s.partition("MARGINAL EFFECTS")[0], label, *v)
    pr = o.predy > 0.5
    tpr, tnr = (100 * pr[y > 0.5].mean(), 100 * (1 - pr[y < 0.5].mean()))
    Q("True positive rate", tpr)
    Q("True negative rate", tnr)
    Q("Balanced accuracy", (tpr + tnr) / 2)
    Q("% correctly pred.", 100 * (pr == (y > 0.5)).mean())
    Q("McFadden's rho", o.mcfadrho)
    Q("Number of Observations", n)
    Q("Number of Variables", k + 1)
    Q("Degrees of Freedom", n - k - 1)
    Q("Log-Likelihood", o.logl)
    Q("LR test", o.LR[0])
    Q("LR test (p-value)", o.LR[1])
    rest = s.partition("MARGINAL EFFECTS")[2]
    c.true("the method of the marginal effects is named", ("Mean of individual marginal effects" in rest) == (scalem == "phimean")
           and ("Marginal effects at variables mean" in rest) == (scalem == "xmean"))
    for i in range(k):
        K.printed(c, rest.partition("DIAGNOSTICS FOR SPATIAL")[0], "x%d" % i, o.slopes[i], o.slopes_std_err[i], *o.slopes_z_stat[i])
    for label, v in (("Kelejian-Prucha (error)", o.KP_error), ("Pinkse (error)", o.Pinkse_error), ("Pinkse-Slade (error)", o.PS_error)):
        K.printed(c, rest, label, 1, v[0], v[1])
    rows = [[float(a) for a in l.split()] for l in rest.partition("COEFFICIENTS VARIANCE MATRIX")[2].strip().split("\n")[2:] if "===" not in l]
    c.true("printed covariance", np.abs(np.array(rows) - o.vm).max() <= 6e-7)


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C16", ["probit:Probit.__init__"], cases=[dict(s, diag=d) for s in K.SLX for d in (False, True)], num=False, note="k = 2 regressors, SLX options enumerated")
def probit_constructor(c, slx, sv, diag):
    """the base class gets [1, X, WX, ...] and the optimiser's options; every statistic is published under its own name, computed from this model."""
    seen, M = {}, K.Mark
    P = "diagnostics_probit:"
    fit, lr = {"PREDPC": M("predpc")}, {"L0": M("L0"), "likr": M("likr"), "p-value": M("p")}
    ape, sp = tuple(M("ape%d" % i) for i in range(5)), tuple(M("sp%d" % i) for i in range(3))
    ret = {"diagnostics:se_betas": M("se"), "diagnostics:t_stat": M("z"), P + "pred_table": M("table"), P + "probit_fit": fit, P + "probit_lrtest": lr,
           P + "mcfad_rho": M("rho"), P + "probit_ape": ape, P + "sp_tests": sp, "output:_probit_out": ("", "", "")}

    def prep():
        for key, v in ret.items():
            def f(*a, __k=key, __v=v, **z):
                seen.setdefault(__k, []).append((a, z))
                return __v
            c.stub(key, f)

    def post(o):
        for key in ret:
            if key.endswith("sp_tests") and not diag:
                continue
            c.structure(len(seen.get(key, [])) == 1, "not one call of %s" % key)
            a, z = seen[key][0]
            c.true("%s of this model" % key, (a[0] if a else z.get("reg", z.get("regprob"))) is o)
        if len(seen["diagnostics:t_stat"]) == 1:
            a, z = seen["diagnostics:t_stat"][0]
            c.same("normal distribution for the z statistics", bool(z.get("z_stat", a[1] if len(a) > 1 else False)), True)
        want = dict(std_err=ret["diagnostics:se_betas"], z_stat=ret["diagnostics:t_stat"], predtable=ret[P + "pred_table"], fit=fit, predpc=fit["PREDPC"], LRtest=lr,
                    L0=lr["L0"], mcfadrho=ret[P + "mcfad_rho"], scale=ape[0], slopes=ape[1], slopes_vm=ape[2], slopes_std_err=ape[3], slopes_z_stat=ape[4])
        for nm, v in want.items():
            c.true("%s published" % nm, getattr(o, nm) is v)
        c.true("LR published", o.LR[0] is lr["likr"] and o.LR[1] is lr["p-value"])
        c.same("spatial diagnostics only when asked for", len(seen.get(P + "sp_tests", [])), int(diag))
        if diag:
            c.true("spatial diagnostics published", o.Pinkse_error is sp[0] and o.KP_error is sp[1] and o.PS_error is sp[2])
    K.constructor(c, "probit", "Probit", "probit:BaseProbit", slx, sv, marks=("optim", "bstart", "maxiter"), given=dict(spat_diag=diag), prep=prep, post=post)
