"""C20: Kapoor-Kelejian-Prucha random effects panels and panel diagnostics."""
import numpy as np

from ..engine import blank, contract
from . import common as K, zoo
from .c19_panel import at, bar, layout, long_of, panel_constructor, wpanel

S, P, G = "sp_panels:", "panel:", "diagnostics_panel:"


def method(c, cl, name):
    if cl.startswith(S):
        return c.func(S + name)
    return getattr(blank(c.func(cl)), name)


CL = (S + "BaseGM_KKP", P + "BaseGM_ErrorRE")


def within(c, a):
    m = bar(a)
    return [b - m for b in a]


def between(c, a):
    m = bar(a)
    return [m for b in a]


def dot(a, b):
    return sum((p.T @ q)[0, 0] for p, q in zip(a, b))


@contract("C20", [S + "_moments_kkp", P + "BaseGM_ErrorRE._moments_kkp"], cases=[dict(cl=f, T=t, i=i) for f in CL for t in (2, 3) for i in (0, 1)], draws=4)
def moments(c, cl, T, i):
    """the moment conditions in the within (i = 0) and between (i = 1) transformed residuals, at every lambda and variance."""
    n = c.dim("n", 8, 25)
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    us = [c.array("u%d" % t, n, 1) for t in range(T)]
    u = c.np.vstack(us)
    (M, g), tr = method(c, cl, "_moments_kkp")(w.sparse, u, i)
    lam, s = c.scalar("lam", -0.95, 0.95), c.scalar("s", 0.1, 4.0)
    e = [b - lam * (W @ b) for b in us]
    we = [W @ b for b in e]
    q = within if i == 0 else between
    d = n * (T - 1) if i == 0 else n
    tw = c.tr(W.T @ W)
    c.eq("tr(W'W)", tr, tw)
    par = [lam, lam * lam, s] if i == 0 else [lam, lam * lam, 0, s]
    c.same("shapes", (tuple(M.shape), tuple(g.shape)), ((3, 3 + i), (3, 1)))
    r = [g[j][0] - sum(M[j][m] * par[m] for m in range(3 + i)) for j in range(3)]
    c.eq("moment 1", r[0], dot(e, q(c, e)) / d - s)
    c.eq("moment 2", r[1], dot(we, q(c, we)) / d - s * tw / n)
    c.eq("moment 3", r[2], dot(e, q(c, we)) / d)
    if i == 1:
        c.eq("the between moments do not involve the within variance", sum(M[j][2] * M[j][2] for j in range(3)), 0)
        (M2, g2), tr2 = method(c, cl, "_moments_kkp")(w.sparse, u, i, tr)
        c.eq("same moments from a given trace", M2, M)
        c.eq("given trace returned", tr2, tw)
    c.frame("u unchanged", u)


@contract("C20", [S + "_get_Tau", P + "BaseGM_ErrorRE._get_Tau"], cases=[dict(cl=f) for f in CL], draws=4)
def tau(c, cl):
    """the matrix T_W of Kapoor, Kelejian and Prucha (2007), equation (20)."""
    n = c.dim("n", 8, 25)
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    t = method(c, cl, "_get_Tau")(w.sparse, c.tr(W.T @ W))
    WW = W.T @ W
    c.same("shape", tuple(t.shape), (3, 3))
    c.eq("T11", t[0, 0], 2)
    c.eq("T13", t[0, 2], 0)
    c.eq("T31", t[2, 0], 0)
    c.eq("T23", t[1, 2], c.tr(WW @ (W.T + W)) / n)
    c.eq("T32", t[2, 1], c.tr(WW @ (W.T + W)) / n)
    c.eq("T33", t[2, 2], c.tr(W @ W + WW) / n)
    for nm, v, right, recorded in (("T12 = 2 tr(W'W)/n", t[0, 1], 2 * c.tr(WW) / n, 2 * c.tr(WW) / n / n), ("T21 = 2 tr(W'W)/n", t[1, 0], 2 * c.tr(WW) / n, 2 * c.tr(WW) / n / n),
                                   ("T22 = 2 tr(W'WW'W)/n", t[1, 1], 2 * c.tr(WW @ WW) / n, c.tr(WW @ WW) / n)):
        c.eq("scale of " + nm, v, right)
        c.eq(nm[:3] + " is right or off by the recorded factor", (v - right) * (v - recorded), 0, scale=1)


@contract("C20", [S + "BaseGM_KKP.__init__", P + "BaseGM_ErrorRE.__init__"], cases=[dict(cl=f, T=t, full=b) for f in CL for t in (2, 3) for b in (False, True)], draws=2, timeout=150,
          note="BaseOLS: callee contract (C01); optim_moments returns a minimiser of the objective it is given (C27); moments and T_W: callee contracts")
def base(c, cl, T, full):
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T, kind="gen")
    if c.symbolic:
        l1, sv, l2, sv2, s12 = (c.scalar(a, 0.1, 0.9) for a in ("l1", "sv", "l2", "sv2", "s12"))
        rec, mom = [], []
        c.stub(cl.split(":")[0] + ":optim_moments", lambda m, vcX=None, all_par=False, start=None, hard_bound=False:
               rec.append((m, vcX, all_par, start)) or ([l1, sv], [l2, sv2, s12])[len(rec) - 1])
        c0 = [[c.scalar("g%d%d" % (i, j)) for j in range(4)] for i in range(6)]
        m0 = [c.np.array([r[:3] for r in c0[:3]]), c.np.array([[c.scalar("h%d" % i)] for i in range(3)])]
        m1 = [c.np.array(c0[3:]), c.np.array([[c.scalar("h%d" % i)] for i in range(3, 6)])]
        tr = c.scalar("tr")
        tm = c.np.array([[c.scalar("t%d%d" % (min(i, j), max(i, j))) for j in range(3)] for i in range(3)])

        def moments_(ws, u, i, trace_w2=None):
            mom.append((ws, u, i, trace_w2))
            return (m0, m1)[i], tr

        def tau_(ws, t):
            mom.append((ws, None, "tau", t))
            return tm
        if cl.startswith(S):
            c.stub(S + "_moments_kkp", moments_)
            c.stub(S + "_get_Tau", tau_)
        else:
            c.stub(cl + "._moments_kkp", lambda self, *a: moments_(*a))
            c.stub(cl + "._get_Tau", lambda self, *a: tau_(*a))
        first, ols = [c.array("u0_%d" % t, n, 1) for t in range(T)], []

        def init(self, y, x, robust=None, gwk=None, sig2n_k=True):
            ols.append((y, x, robust, sig2n_k))
            if len(ols) == 1:
                self.x, self.y, self.n, self.k, self.xtx, self.u = x, y, x.shape[0], x.shape[1], x.T @ x, c.np.vstack(first)
            else:
                self.betas, self.vm = c.array("bs", k, 1), c.array("vs", k, k)
        c.stub("ols:BaseOLS.__init__", init)
    else:
        c.assume(K.well(x))
    o = c.func(cl)(y, x, w, full_weights=full)
    lam, s2v, s21 = o.betas[-3, 0], o.betas[-2, 0], o.betas[-1, 0]
    b = o.betas[:-3]
    if c.symbolic:
        u0s, u0 = first, c.np.vstack(first)
        c.same("two OLS regressions", len(ols), 2)
        c.eq("first OLS: y", ols[0][0], y)
        c.eq("first OLS: x", ols[0][1], x)
        c.same("first OLS: classic", ols[0][2], None)
        for ws, u, i, t in mom:
            c.eq("moments of W", c.dense(ws), W)
            if u is not None:
                c.eq("moments of the OLS residuals", u, u0)
            if t is not None:
                c.eq("trace handed on", t, tr)
        c.same("within and between moments, weights", [m[2] for m in mom], [0, "tau", 1] if full else [0, 1])
        c.same("two optimisations for all parameters", [r[2] for r in rec], [True, True])
        c.structure(rec[0][0] is m0 and rec[0][1] is None, "first: unweighted within moments")
        M = rec[1][0]
        z = c.np.zeros((3, 1))
        c.eq("second: six moments", M[0], c.np.vstack((c.np.hstack((m0[0], z)), m1[0])))
        c.eq("second: six moments, left side", M[1], c.np.vstack((m0[1], m1[1])))
        e = [p - l1 * (W @ p) for p in u0s]
        s1 = dot(e, between(c, e)) / n
        th = tm if full else c.np.eye(3)
        V = rec[1][1]
        z3 = c.np.zeros((3, 3))
        c.eq("weights: sv^2/(T-1) and s1^2 times T_W", V, c.np.vstack((c.np.hstack((sv * sv / (T - 1) * th, z3)), c.np.hstack((z3, s1 * s1 * th)))))
        for a, v, nm in zip(rec[1][3], (l1, sv, s1), ("lambda", "sigma2_v", "sigma2_1")):
            c.eq("start value " + nm, a, v)
        c.eq("lambda", lam, l2)
        c.eq("sigma2_v", s2v, sv2)
        c.eq("sigma2_1", s21, s12)
    else:
        u0 = y - x @ (np.linalg.inv(x.T @ x) @ (x.T @ y))
        mm = method(c, cl, "_moments_kkp")
        (a0, h0), tr = mm(w.sparse, u0, 0)
        (a1, h1), _ = mm(w.sparse, u0, 1, tr)
        l1, sv = c.func("utils:optim_moments")([a0, h0], all_par=True)
        e = u0 - l1 * np.kron(np.eye(T), W) @ u0
        s1 = (e.T @ np.kron(np.ones((T, T)) / T, np.eye(n)) @ e).item() / n
        tw = np.asarray(method(c, cl, "_get_Tau")(w.sparse, tr)) if full else np.eye(3)
        V = np.kron(np.diag([sv * sv / (T - 1), s1 * s1]), tw)
        c.assume(np.linalg.cond(V) < 1e8 and np.linalg.eigvalsh(V).min() > 0 and sv > 1e-3)
        M = [np.vstack((np.hstack((a0, np.zeros((3, 1)))), a1)), np.vstack((h0, h1))]
        ref = c.func("utils:optim_moments")(M, vcX=V, all_par=True, start=[l1, sv, s1])
        c.eq("parameters of the weighted six moments", np.array([lam, s2v / ref[1], s21 / ref[2]]), np.array([ref[0], 1.0, 1.0]), tol=1e-2, scale=1)
        c.assume(s2v > 1e-6 and s21 > 1e-6)
    th = 1 - c.np.sqrt(s2v) / c.np.sqrt(s21)

    def star(a):
        f = [p - lam * (W @ p) for p in a]
        m = bar(f)
        return c.np.vstack([p - th * m for p in f])
    Y, X = star(ys), star(xs)
    if c.symbolic:
        c.eq("OLS on the filtered and quasi-demeaned data: y", ols[1][0], Y)
        c.eq("OLS on the filtered and quasi-demeaned data: x", ols[1][1], X)
        c.same("second OLS: classic, n - k", ols[1][2:], (None, True))
        c.eq("its coefficients", b, c.array("bs", k, 1))
        c.eq("its variance", o.vm, c.array("vs", k, k))
    else:
        e = Y - X @ b
        c.eq("least squares on the filtered and quasi-demeaned data", X.T @ e, np.zeros((k, 1)), scale=1e3)
        c.eq("coefficients", b, c.inv(X.T @ X) @ (X.T @ Y), tol=1e-5)
        c.eq("vm: OLS variance of the transformed data", o.vm, c.inv(X.T @ X) * ((e.T @ e)[0, 0] / (n * T - k)), tol=1e-5)
    c.eq("predy = X b", o.predy, x @ b)
    c.eq("u = y - X b", o.u, y - x @ b)
    c.eq("e_filtered = (I - lambda W) u", o.e_filtered, (y - x @ b) - lam * at(c, T, n, W, [p - q @ b for p, q in zip(ys, xs)]))
    c.eq("t", o.t, T)
    c.frame("inputs unchanged", y, x)


@contract("C20", [G + f for f in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror")],
          cases=[dict(test=f, T=t) for f in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror") for t in (2, 3)], symcases=[dict(test=f, T=t) for f in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror") for t in (2, 3) if (f, t) != ("panel_rLMerror", 3)],
          draws=4, timeout=120,
          note="OLS: callee contract (C01); check_panel: C19; check_constant: C21")
def lm(c, test, T):
    """Anselin, Le Gallo and Jayet (2008): LM tests of the pooled model with the OLS variance."""
    n, k, ys, xs, y, x, w, W = wpanel(c, T=T, kind="gen")
    N = n * T
    one = c.ones(n, 1)
    x1s = [c.np.hstack((one, p)) for p in xs]
    x1 = c.np.vstack(x1s)
    if c.symbolic:
        b, s2 = c.np.vstack((c.array("b0", 1, 1), c.array("b", k, 1))), c.scalar("s2", 0.1, 2)
        us, ps = [p - q @ b for p, q in zip(ys, x1s)], [q @ b for q in x1s]

        class Fit:
            predy, u, sig2, xtxi = c.np.vstack(ps), c.np.vstack(us), s2, c.inv(x1.T @ x1)
        got = []
        c.stub(G + "OLS", lambda y, x: got.append((y, x)) or Fit)
        c.stub(G + "check_panel", lambda y, x, w, ny, nx: (y, x, None, None, T, ""))
        c.stub("user_output:check_constant", lambda x, nx=None, just_rem=False: (x1, nx, None))
    else:
        c.assume(K.well(x1))
        b = np.linalg.lstsq(x1, y, rcond=None)[0]
        us, ps = [p - q @ b for p, q in zip(ys, x1s)], [q @ b for q in x1s]
        s2 = dot(us, us) / (N - x1.shape[1])
    v, p = c.func(G + test)(y, x, w)
    if c.symbolic:
        c.same("one regression", len(got), 1)
        c.eq("regression of y", got[0][0], y)
        c.eq("regression on x with a constant", got[0][1], x1)
    tw = c.tr(W @ W + W.T @ W)
    wxb = [W @ a for a in ps]
    h = sum((q.T @ a) for q, a in zip(x1s, wxb))
    D = dot(wxb, wxb) - (h.T @ c.inv(x1.T @ x1) @ h)[0, 0]
    dl, de = dot(us, [W @ a for a in ys]) / s2, dot(us, [W @ a for a in us]) / s2
    J = D / s2 + T * tw
    if test == "panel_LMerror":
        ref = de ** 2 / (T * tw)
    elif test == "panel_rLMlag":
        ref = (dl - de) ** 2 / (J - T * tw)
    elif test == "panel_rLMerror":
        ref = (de - T * tw / J * dl) ** 2 / (T * tw * (1 - T * tw / J))
    else:
        c.eq("the lag statistic of the pooled model", v, dl ** 2 / J)
        J0 = D / s2 + tw * tw
        c.eq("lag statistic: right or with the recorded information", (v - dl ** 2 / J) * (v - dl ** 2 / J0), 0, scale=1)
    if test != "panel_LMlag":
        c.eq("statistic", v, ref)
    c.eq("p-value", p, c.chi2sf(v, 1))
    c.frame("inputs unchanged", y, x)


@contract("C20", [G + "panel_Hausman"], cases=[dict(lag=b) for b in (True, False)], draws=5)
def hausman(c, lag):
    """Elhorst (2014): h = d'(V_re - V_fe)^-1 d over the coefficients both models have."""
    k = c.dim("k", 1, 4)
    m = k + 1 if lag else k
    bf, br, b0 = c.array("bf", m, 1), c.array("br", m, 1), c.scalar("b0")
    ef, er, er2 = c.scalar("ef"), c.scalar("er"), c.scalar("er2")
    vf, v00, v01, vr = c.array("vf", m, m, symmetric=True), c.scalar("v00", 1, 2), c.array("v01", m, 1), c.array("vr", m, m, symmetric=True)

    class M:
        pass
    fe, re = M(), M()
    A = c.np.array
    if lag:
        fe.rho, re.rho = 0.2, 0.3
        fe.betas, re.betas = bf, c.np.vstack((A([[b0]]), br, A([[er]])))
        re.k = k + 2
    else:
        fe.lam, re.lam = 0.2, 0.3
        fe.betas, re.betas = c.np.vstack((bf, A([[ef]]))), c.np.vstack((A([[b0]]), br, A([[er]]), A([[er2]])))
        re.k = k + 1
    fe.varb, re.varb = vf, c.np.vstack((c.np.hstack((A([[v00]]), v01.T)), c.np.hstack((v01, vr))))
    h, p = c.func(G + "panel_Hausman")(fe, re)
    d = bf - br
    if not c.symbolic:
        c.assume(np.linalg.cond(vr - vf) < 1e6)
    c.eq("statistic", h, (d.T @ c.inv(vr - vf) @ d)[0, 0], tol=1e-6)
    c.eq("p-value: one degree of freedom per compared coefficient", p, c.chi2sf(h, m))
    a, b = (M(), M())
    a.betas = b.betas = bf
    c.raises("models of different kind are refused", lambda: c.func(G + "panel_Hausman")(a, b))


@contract("C20", [G + "BSK_tests"], cases=[dict(which=wh, T=t) for wh in ("LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE") for t in (2, 3)],
          symcases=[dict(which=wh, T=t) for wh in ("LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE") for t in (2, 3) if (wh, t) != ("LMC_RE", 3)],
          draws=4, timeout=150, note="PooledOLS, PanelRE, BaseML_ErrorPooled, BaseGM_ErrorPooled: callee contracts (C01, C19, C08, C05); the model is given fitted")
def bsk(c, which, T):
    """Baltagi, Song and Koh (2003): marginal, joint and conditional tests in the residuals of the restricted model."""
    n = c.dim("n", 8, 25)
    w = c.weights("W", n, "gen")
    W = c.wd(w)
    us = [c.array("u%d" % t, n, 1) for t in range(T)]
    u = c.np.vstack(us)
    A = c.np.array

    class Base:
        pass
    reg = type({"LMC_spatial": "PanelRE", "LMC_RE": zoo.pick(c, "ML_ErrorPooled", "GM_ErrorPooled", "BaseML_ErrorPooled", "BaseGM_ErrorPooled") if not c.symbolic else "ML_ErrorPooled"}.get(which, "PooledOLS"), (Base,), {})()
    reg.n, reg.u = n * T, u
    lam = c.scalar("lam", -0.8, 0.8)
    if which == "LMC_spatial":
        reg.y, reg.x, reg.betas = u, c.np.zeros((n * T, 1)), A([[0.0]])
    elif which == "LMC_RE":
        reg.betas = A([[c.scalar("b0")], [lam]])
    if c.symbolic:
        c.stub_pandas("diagnostics_panel")
    r = c.func(G + "BSK_tests")(reg, w, which=which)
    v, p, df = [list(r[a])[0] for a in ("Statistic", "p-value", "df")]
    c.same("one test", len(list(r["Test"])), 1)
    sf = lambda z: 1 - c.stats.norm.cdf(z)
    N = n * T
    b = c.tr(W.T @ W + W @ W)
    uu = dot(us, us)
    s = bar(us) * T
    l1 = c.np.sqrt(N / (2 * (T - 1))) * ((s.T @ s)[0, 0] / uu - 1)
    l2 = c.np.sqrt(n * n * T / b) * (dot(us, [W @ a for a in us]) / uu)
    if which == "LM1":
        c.eq("marginal test for random effects", v, l1)
        c.eq("one-sided p-value", p, sf(l1), scale=1e-6)
        c.same("df", int(df), 1)
    elif which == "LM2":
        c.eq("marginal test for a spatial error", v, l2)
        c.eq("one-sided p-value", p, sf(l2), scale=1e-6)
        c.same("df", int(df), 1)
    elif which == "LMJ":
        ref = 0
        if l1 > 0:
            ref = ref + l1 ** 2
        if l2 > 0:
            ref = ref + l2 ** 2
        c.eq("joint test: squares of the positive marginal statistics", v, ref)
        if v > 0:
            cdf = c.stats.chi2.cdf
            c.eq("p-value of the mixture 1/4 chi2(0) + 1/2 chi2(1) + 1/4 chi2(2)", p, 0.5 * (1 - cdf(ref, 1)) + 0.25 * (1 - cdf(ref, 2)), scale=1e-6)
        else:
            c.eq("p-value 1 when none is positive", p, 1)
    elif which == "LMC_spatial":
        m, d = between(c, us), within(c, us)
        s1, sv = dot(m, m) / n, dot(d, d) / (n * (T - 1))
        S2 = W + W.T
        D = (sv / s1 ** 2 * dot(m, [S2 @ a for a in m]) + dot(d, [S2 @ a for a in d]) / sv) / 2
        ref = D / c.np.sqrt(((T - 1) + sv ** 2 / s1 ** 2) * b)
        c.eq("conditional test for a spatial error given random effects", v, ref)
        c.eq("one-sided p-value", p, sf(v), scale=1e-6)
    else:
        B = c.eye(n) - lam * W
        BB = B.T @ B
        es = [B @ a for a in us]
        s2 = dot(es, es) / N
        D = -T / (2 * s2) * c.tr(BB) + (s.T @ (BB @ (BB @ s)))[0, 0] / (2 * s2 ** 2)
        H = W.T @ B + B.T @ W
        BI = c.inv(BB)
        h, dd, e, g, cc = c.tr(BB), c.tr(H), c.tr(BB @ BB), c.tr(H @ BI), c.tr(H @ BI @ H @ BI)
        num, den = 2 / T * (n * cc - g ** 2), T * n * e * cc - n * dd ** 2 - T * g ** 2 * e + 2 * g * h * dd - h ** 2 * cc
        if num > 0 and den > 0 and not s2 * c.np.sqrt(den) == 0:
            c.eq("conditional test for random effects given a spatial error", v, D * s2 * c.np.sqrt(num) / c.np.sqrt(den), tol=1e-5)
        c.eq("one-sided p-value", p, sf(v), scale=1e-6)
    c.frame("residuals unchanged", u)


@contract("C20", [S + "GM_KKP.__init__", S + "_get_panel_data", P + "GM_ErrorRE.__init__"], cases=[dict(kind=k, lay=l) for k in ("GM_KKP", "GM_ErrorRE") for l in ("wide", "long") if (k, l) != ("GM_KKP", "long")],
          sym=False, draws=3, timeout=120, bounded="random balanced panels n<=30, T<=5")
def classes(c, kind, lay):
    """the public class on either layout: parameters minimise the weighted moment criterion, coefficients solve the transformed problem."""
    kind, d, kw = zoo.panel_args(c, kind)
    n, T, k, W = d.n, d.T, d.k, d.W
    y, x = long_of(d)
    N = n * T
    WW = np.kron(np.eye(T), W)
    base = ["aa", "bb", "cc"][:k]
    names, xx = list(base), x
    full = zoo.flip(c)
    kw["full_weights"] = full
    if kind == "GM_ErrorRE":
        slx = zoo.pick(c, 0, 0, 1, 2)
        kw["slx_lags"] = slx
        lag = x
        for i in range(slx):
            lag = WW @ lag
            xx = np.hstack([xx, lag])
            names += ["W%s_%s" % ("" if i == 0 else str(i + 1), v) for v in base]
    if lay == "long":
        kw.update(y=y.copy(), x=x.copy(), name_y=zoo.pick(c, "dep", ["dep"]), name_x=list(base))
    else:
        kw["name_x"] = ["%s%d" % (v, t) for v in base for t in range(T)]
    x1 = np.hstack([np.ones((N, 1)), xx])
    c.assume(np.linalg.cond(x1) < 500)
    o = zoo.build(c, kind, kw)
    lam, sv, s1 = np.asarray(o.betas)[-3:, 0]
    c.assume(sv > 1e-6 and s1 > 1e-6)
    J = np.kron(np.ones((T, T)) / T, np.eye(n))
    R = np.eye(N) - (1 - np.sqrt(sv / s1)) * J
    Y, X = R @ (y - lam * WW @ y), R @ (x1 - lam * WW @ x1)
    b = np.linalg.lstsq(X, Y, rcond=None)[0]
    c.eq("coefficients solve the filtered and quasi-demeaned problem", np.asarray(o.betas)[:-3], b, tol=1e-6)
    e = Y - X @ b
    c.eq("vm", o.vm, (e.T @ e).item() / (N - x1.shape[1]) * np.linalg.inv(X.T @ X), tol=1e-6)
    u = y - x1 @ b
    c.eq("residuals", o.u, u, tol=1e-6)
    c.eq("predicted values", o.predy, x1 @ b, tol=1e-6)
    c.eq("e_filtered", o.e_filtered, u - lam * WW @ u, tol=1e-6)
    # the criterion
    u0 = y - x1 @ np.linalg.lstsq(x1, y, rcond=None)[0]
    E = np.eye(N) - J
    tw = (W ** 2).sum()

    def mom(r, a, q):
        f = u0 - r * WW @ u0
        wf = WW @ f
        out = []
        for P_, s, dd in ((E, a, n * (T - 1)), (J, q, n)):
            out += [(f.T @ P_ @ f).item() / dd - s, (wf.T @ P_ @ wf).item() / dd - s * tw / n, (f.T @ P_ @ wf).item() / dd]
        return np.array(out)
    mm = c.func("panel:BaseGM_ErrorRE")
    mm = blank(mm)
    l1, v1 = c.func("utils:optim_moments")(mm._moments_kkp(d.w.sparse, u0, 0)[0], all_par=True)
    f = u0 - l1 * WW @ u0
    q1 = (f.T @ J @ f).item() / n
    T3 = np.asarray(mm._get_Tau(d.w.sparse, tw)) if full else np.eye(3)
    V = np.kron(np.diag([v1 ** 2 / (T - 1), q1 ** 2]), T3)
    c.assume(np.linalg.eigvalsh(V).min() > 1e-6)
    V = np.linalg.inv(V)
    obj = lambda p: mom(*p) @ V @ mom(*p)
    at0 = obj((lam, sv, s1))
    for dp in ((0.03, 0, 0), (-0.03, 0, 0), (0, 0.05 * sv, 0), (0, -0.05 * sv, 0), (0, 0, 0.05 * s1), (0, 0, -0.05 * s1)):
        p = (lam + dp[0], sv + dp[1], s1 + dp[2])
        if abs(p[0]) < 0.99:
            c.ge0("the parameters minimise the weighted criterion", obj(p) - at0 + 1e-4 * (abs(at0) + 1e-6))
    c.same("names", [v.strip() for v in o.name_x], ["CONSTANT"] + names + ["lambda", "sigma2_v", "sigma2_1"])
    c.same("dependent variable", o.name_y, "dep")
    c.eq("number of periods", int(o.t), T)
    c.frame_all("inputs unchanged")


@contract("C20", [P + "GM_ErrorPooled.__init__", P + "ML_ErrorPooled.__init__", P + "BaseGM_ErrorPooled.__init__", P + "BaseML_ErrorPooled.__init__", G + "BSK_tests",
                  P + "PooledOLS.__init__", P + "PanelRE.__init__"],
          cases=[dict(kind=k, lay=l) for k in ("GM_ErrorPooled", "ML_ErrorPooled") for l in ("wide", "long")], sym=False, draws=3, timeout=120, bounded="random balanced panels n<=30, T<=5")
def pooled(c, kind, lay):
    """pooled error models are the cross-sectional models on I_T (x) W; the BSK tables use the models of their own null hypotheses."""
    kind, d, kw = zoo.panel_args(c, kind)
    n, T, k, W = d.n, d.T, d.k, d.W
    y, x = long_of(d)
    N = n * T
    WW = np.kron(np.eye(T), W)
    base = ["aa", "bb", "cc"][:k]
    names, xx, lag = list(base), x, x
    slx = zoo.pick(c, 0, 0, 1, 2)
    kw["slx_lags"] = slx
    kw["nonspat_diag"] = bool(zoo.pick(c, True, True, False))
    for i in range(slx):
        lag = WW @ lag
        xx = np.hstack([xx, lag])
        names += ["W%s_%s" % ("" if i == 0 else str(i + 1), v) for v in base]
    if lay == "long":
        kw.update(y=y.copy(), x=x.copy(), name_y="dep", name_x=list(base))
    else:
        kw["name_x"] = ["%s%d" % (v, t) for v in base for t in range(T)]
    x1 = np.hstack([np.ones((N, 1)), xx])
    c.assume(np.linalg.cond(x1) < 500)
    import scipy.sparse as SP
    import libpysal
    ws = SP.csr_matrix(WW)
    if kind == "GM_ErrorPooled":
        kw.update(max_iter=zoo.pick(c, 1, 3), step1c=zoo.flip(c))
        ref = c.func("error_sp_het:BaseGM_Error_Het")(y, x1, ws, max_iter=kw["max_iter"], step1c=kw["step1c"])
    else:
        ref = c.func("ml_error:BaseML_Error")(y, x1, libpysal.weights.WSP(ws).to_W(silence_warnings=True), method="LU")
    o = zoo.build(c, kind, kw)
    for a in ("betas", "vm", "u", "predy", "e_filtered"):
        c.eq(a, getattr(o, a), getattr(ref, a), tol=1e-4 if kind.startswith("ML") else 1e-6, scale=float(np.abs(getattr(ref, a)).max()))
    if kind.startswith("ML"):
        c.eq("log-likelihood", float(np.real(o.logll)), float(np.real(ref.logll)), tol=1e-6)
    c.same("names", list(o.name_x), ["CONSTANT"] + names + ["lambda"])
    c.eq("number of observations", int(o.n), N)
    bsk_ = c.func(G + "BSK_tests")
    row = lambda t, nm: [float(v) for v in t[t["Test"] == nm][["Statistic", "p-value"]].values[0]]
    with zoo.quiet():
        po = c.func(P + "PooledOLS")(y, xx, d.w, name_x=["v%d" % i for i in range(xx.shape[1])], name_y="dep")
        re = c.func(P + "PanelRE")(y, xx, d.w, name_x=["v%d" % i for i in range(xx.shape[1])], name_y="dep")
        allt = [bsk_(m, d.w, GM_BSK=kind.startswith("GM")) for m in (o, po, re)]
        own = {"LM Joint (LMJ)": bsk_(po, d.w, "LMJ"), "LM Marginal RE (LM1)": bsk_(po, d.w, "LM1"), "LM Marginal Spatial (LM2)": bsk_(po, d.w, "LM2"),
               "LM Conditional Spatial": bsk_(re, d.w, "LMC_spatial")}
        b0 = c.func(P + ("BaseGM_ErrorPooled" if kind.startswith("GM") else "BaseML_ErrorPooled"))(y, x1, d.w)
        own["LM Conditional RE"] = bsk_(b0, d.w, "LMC_RE")
    if not kw["nonspat_diag"]:
        c.true("no table unless asked for", not hasattr(o, "bsk"))
    else:
        c.eq("reported table: test of random effects in this model", row(o.bsk, "LM Conditional RE"), row(bsk_(o, d.w, "LMC_RE"), "LM Conditional RE"), scale=1)
    for t, m in zip(allt, (o, po, re)):
        c.same("five tests", sorted(t["Test"]), sorted(own))
        for nm in own:
            if nm == "LM Conditional RE" and m is o:
                continue
            c.eq("%s from the model of its null hypothesis" % nm, row(t, nm), row(own[nm], nm), tol=1e-4, scale=1)
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ public constructors (panel.py)
POOLED = [("GM_ErrorRE", ["lambda", " sigma2_v", "sigma2_1"], [], {}), ("ML_ErrorPooled", ["lambda"], ["method", "epsilon"], dict(nonspat_diag=True)),
          ("GM_ErrorPooled", ["lambda"], ["max_iter", "step1c"], dict(nonspat_diag=True))]


@contract("C20", [P + m[0] + ".__init__" for m in POOLED], num=False, draws=0, cases=[dict(kind=m[0], T=t, slx=s, full=f) for m in POOLED for t, s, f in ((2, 0, True), (3, 1, False))],
          note="callees (prepare_panel, base class, BSK tests, printing) by their contracts")
def pooled_constructor(c, kind, T, slx, full):
    """data, weights and options are handed to the base class; the conditional test is the LMC_RE test of this very model."""
    _, tail, opts, extra = [m for m in POOLED if m[0] == kind][0]
    got = []

    class Table(dict):
        def __len__(self):
            return 0
    tab = Table()
    c.stub("diagnostics_panel:BSK_tests", lambda reg, w, which=None, **z: got.append((reg, w, which)) or tab)
    opts = list(opts)
    extra = dict(extra)
    if extra:
        extra["nonspat_diag"] = full
    if kind == "GM_ErrorRE":
        opts = ["full_weights"]
    o, w = panel_constructor(c, kind, True, tail, tail, T, slx, opts=opts, extra=extra, crit=kind.startswith("ML"))
    if extra and full:
        c.structure(len(got) == 1, "calls of BSK_tests")
        c.true("conditional test of this model", got[0][0] is o and got[0][1] is w and got[0][2] == ["LMC_RE"] and o.bsk is tab)
    elif extra:
        c.true("no test unless asked for", not got)
