"""C04: Kelejian-Prucha (1998/99) GM error models."""
from ..engine import contract
from . import common as K
from . import zoo


@contract("C04", ["error_sp:_momentsGM_Error"], cases=[dict(form=f, kind=k) for f in ("W", "sparse") for k in ("gen", "row", "asym")], draws=6)
def moments(c, form, kind):
    np = c.np
    n = c.dim("n", 8, 40)
    w, u = c.weights("W", n, kind), c.array("u", n, 1)
    G, g = c.func("error_sp:_momentsGM_Error")(w if form == "W" else w.sparse, u)
    lam, s2 = c.scalar("lam", -0.95, 0.95), c.scalar("s2", 0.1, 4.0)
    W = c.wd(w)
    e = u - lam * (W @ u)
    we = W @ e
    r = [g[i][0] - (G[i][0] * lam + G[i][1] * lam * lam + G[i][2] * s2) for i in range(3)]
    c.eq("moment 1: e'e/n - s2", r[0], (e.T @ e)[0, 0] / n - s2)
    c.eq("moment 2: (We)'We/n - s2 tr(W'W)/n", r[1], (we.T @ we)[0, 0] / n - s2 * c.tr(W.T @ W) / n)
    c.eq("moment 3: e'We/n", r[2], (e.T @ we)[0, 0] / n)
    c.same("shapes", (tuple(G.shape), tuple(g.shape)), ((3, 3), (3, 1)))
    c.frame("u unchanged", u)


@contract("C04", ["error_sp:BaseGM_Error.__init__", "ols:BaseOLS.__init__", "utils:get_spFilter"], draws=8,
          note="optim_moments: returns some scalar lambda (its own contract is C27)")
def base_gm_error(c):
    np = c.np
    n, k = c.dim("n", 15, 50), c.dim("k", 1, 4)
    c.assume(n > k + 3)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    W = c.wd(w)
    got = {}
    if c.symbolic:
        lam = c.scalar("lam")
        c.stub("error_sp:_momentsGM_Error", lambda ww, u: got.update(w=ww, u=u) or ["G", "g"])
        c.stub("error_sp:optim_moments", lambda m, vcX=None, all_par=False, start=None, hard_bound=False: got.update(m=m, hb=hard_bound, vc=vcX) or lam)
    else:
        c.assume(K.well(x))
    o = c.func("error_sp:BaseGM_Error")(y, x, w.sparse)
    b, l = o.betas[:-1], o.betas[-1, 0]
    if c.symbolic:
        c.eq("moments from first-stage OLS residuals", got["u"], y - x @ (c.inv(x.T @ x) @ (x.T @ y)))
        c.structure(got["m"] == ["G", "g"] and got["vc"] is None, "moments passed to the optimiser")
        c.same("hard_bound default", got["hb"], False)
        c.eq("moments use W", c.dense(got["w"]), W)
        c.eq("lambda is the optimiser's", l, lam)
    xs, ys = x - l * (W @ x), y - l * (W @ y)
    es = ys - xs @ b
    c.eq("filtered normal equations", xs.T @ es, np.zeros((k, 1)), scale=1e3)
    c.eq("predy", o.predy, x @ b)
    c.eq("u", o.u, y - x @ b)
    c.eq("e_filtered", o.e_filtered, es)
    c.eq("sig2", o.sig2, (es.T @ es)[0, 0] / n)
    c.eq("vm", o.vm, c.inv(xs.T @ xs) * o.sig2)
    c.eq("n", o.n, n)
    c.eq("k", o.k, k)
    c.frame("inputs unchanged", y, x)


@contract("C04", ["error_sp:BaseGM_Error.__init__"], cases=[dict(hb=True), dict(hb=False)], num=False)
def gm_error_hard_bound(c, hb):
    n, k = c.dim("n", 15, 50), c.dim("k", 1, 4)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k)
    got = {}
    lam = c.scalar("lam")
    c.stub("error_sp:_momentsGM_Error", lambda ww, u: ["G", "g"])
    c.stub("error_sp:optim_moments", lambda m, vcX=None, all_par=False, start=None, hard_bound=False: got.update(hb=hard_bound) or lam)
    c.func("error_sp:BaseGM_Error")(y, x, w.sparse, hard_bound=hb)
    c.same("hard_bound reaches the optimiser", got["hb"], hb)


@contract("C04", ["error_sp:BaseGM_Endog_Error.__init__", "utils:get_spFilter"], draws=6,
          note="callee contracts: BaseTSLS (C02), optim_moments (C27)")
def base_gm_endog_error(c):
    np = c.np
    n, k, ke, kq = c.dim("n", 20, 50), c.dim("k", 1, 3), c.dim("ke", 1, 2), c.dim("kq", 2, 3)
    c.assume(n > k + ke + kq + 3)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    yend, q = c.array("yend", n, ke), c.array("q", n, kq)
    W = c.wd(w)
    calls, got = [], {}
    if c.symbolic:
        lam = c.scalar("lam")
        kz, kh = c.dim("kz", 2, 5), c.dim("kh", 2, 5)
        c.assume(kz > 1)
        z, h = c.array("Z", n, kz), c.array("H", n, kh)
        zs = c.array("Zs", n, kz)
        b1, b2 = c.array("b1", kz, 1), c.array("b2", kz, 1)
        V = c.array("V", kz, kz, symmetric=True)

        def init(self, y, x, yend, q=None, h=None, robust=None, gwk=None, sig2n_k=False):
            i = len(calls)
            calls.append(dict(y=y, x=x, yend=yend, q=q, h=h, robust=robust))
            self.y, self.x, self.yend, self.h = y, x, yend, H
            self.z = z if i == 0 else zs
            self.betas = b1 if i == 0 else b2
            self.u = y - self.z @ self.betas
            self.varb = V
        H = h
        c.stub("twosls:BaseTSLS.__init__", init)
        c.stub("error_sp:_momentsGM_Error", lambda ww, u: got.update(w=ww, u=u) or ["G", "g"])
        c.stub("error_sp:optim_moments", lambda m, vcX=None, all_par=False, start=None, hard_bound=False: got.update(m=m, hb=hard_bound, vc=vcX) or lam)
        o = c.func("error_sp:BaseGM_Endog_Error")(y, x, yend, q, w.sparse)
        c.structure(len(calls) == 2 and calls[0]["h"] is None and calls[1]["h"] is H and calls[1]["q"] is None, "two 2SLS runs")
        for v, a in (("y", y), ("x", x), ("yend", yend), ("q", q)):
            c.eq("first stage on the raw " + v, calls[0][v], a)
        c.eq("moments from the first-stage residuals", got["u"], y - z @ b1)
        c.structure(got["m"] == ["G", "g"] and got["vc"] is None, "moments passed to the optimiser")
        c.same("hard_bound default", got["hb"], False)
        c.eq("moments use W", c.dense(got["w"]), W)
        c.eq("second stage: filtered y", calls[1]["y"], y - lam * (W @ y))
        c.eq("second stage: filtered X", calls[1]["x"], x - lam * (W @ x))
        c.eq("second stage: filtered Yend", calls[1]["yend"], yend - lam * (W @ yend))
        c.eq("betas = [filtered 2SLS; lambda]", o.betas, np.vstack((b2, np.array([[lam]]))))
        c.eq("predy", o.predy, z @ b2)
        c.eq("u", o.u, y - z @ b2)
        c.eq("e_filtered", o.e_filtered, (y - z @ b2) - lam * (W @ (y - z @ b2)))
        us = (y - lam * (W @ y)) - zs @ b2
        c.eq("sig2", o.sig2, (us.T @ us)[0, 0] / n)
        c.eq("vm", o.vm, V * o.sig2)
    else:
        c.assume(K.well(x, yend, q))
        o = c.func("error_sp:BaseGM_Endog_Error")(y, x, yend, q, w.sparse)
        gm_endog_post(c, o, y, x, yend, q, W, lam=False)
    c.frame("inputs unchanged", y, x, yend, q)


def gm_error_post(c, o, y, X, W):
    np = c.np
    n, k = X.shape
    b, l = np.asarray(o.betas)[:-1], float(np.asarray(o.betas)[-1, 0])
    xs, ys = K.filt(W, l, X), K.filt(W, l, y)
    rb, es = K.ols_ref(ys, xs)
    c.eq("betas solve the filtered problem", b, rb)
    c.eq("predy", o.predy, X @ b)
    c.eq("u", o.u, y - X @ b)
    c.eq("e_filtered", o.e_filtered, es)
    c.eq("sig2", o.sig2, float((es ** 2).sum()) / n)
    c.eq("vm", o.vm, np.linalg.inv(xs.T @ xs) * float((es ** 2).sum()) / n)
    lam_check(c, l, W, K.ols_ref(y, X)[1])


def gm_endog_post(c, o, y, X, ye, q, W, lam=True):
    np = c.np
    n = X.shape[0]
    z, h = np.hstack((X, ye)), np.hstack((X, q))
    b, l = np.asarray(o.betas)[:-1], float(np.asarray(o.betas)[-1, 0])
    zs, ys = K.filt(W, l, z), K.filt(W, l, y)
    rb, us, V = K.tsls_ref(ys, zs, h)
    c.eq("betas solve the filtered 2SLS problem", b, rb, tol=1e-5)
    c.eq("predy", o.predy, z @ b)
    c.eq("u", o.u, y - z @ b)
    c.eq("e_filtered", o.e_filtered, K.filt(W, l, y - z @ b))
    c.eq("sig2", o.sig2, float((us ** 2).sum()) / n)
    c.eq("vm", o.vm, V * float((us ** 2).sum()) / n, tol=1e-5)
    if lam:
        lam_check(c, l, W, K.tsls_ref(y, z, h)[1])


def lam_check(c, l, W, u):
    """lambda minimises the KP criterion (sigma2 concentrated over [0, inf)) on a grid of the admissible interval."""
    np = c.np
    n = u.shape[0]
    t = np.trace(W.T @ W)

    def crit(lam):
        e = K.filt(W, lam, u)
        we = W @ e
        m = np.array([(e.T @ e)[0, 0], (we.T @ we)[0, 0], (e.T @ we)[0, 0]]) / n
        d = np.array([1.0, t / n, 0.0])
        s = max(0.0, float(m @ d) / float(d @ d))
        return float(((m - s * d) ** 2).sum())
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = np.linspace(-0.99, 0.99, 199)
        vals = [crit(v) for v in g]
        best, mine = min(vals), crit(l)
        scale = max(vals)
    c.true("lambda inside the bounds", abs(l) <= 0.99 + 1e-9, l)
    c.true("lambda minimises the moment criterion", mine <= best + 1e-3 * scale, (l, mine, best, g[int(np.argmin(vals))]))


CLS = [dict(slx=s, sv=v, pandas=p, via=g) for s, v, p, g in
       [(0, None, False, None), (0, None, True, None), (1, None, False, None), (2, [True, False], False, None), (0, None, False, "GMM_Error"),
        (1, [False, True], True, "GMM_Error")]]


@contract("C04", ["error_sp:GM_Error.__init__", "error_sp:GMM_Error.__init__", "error_sp:BaseGM_Error.__init__"], cases=CLS, sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_error_class(c, slx, sv, pandas, via):
    d = K.spdata(c, k=2, rho=0.0)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    if via:
        kw["estimator"] = "kp98"
    o = c.func("error_sp:" + (via or "GM_Error"))(w=d.w, slx_lags=slx, **kw)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X))
    gm_error_post(c, o, d.y, X, d.W)
    c.same("names", list(o.name_x), lab + ["lambda"])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C04", ["error_sp:GM_Endog_Error.__init__", "error_sp:GMM_Error.__init__", "error_sp:BaseGM_Endog_Error.__init__"], cases=CLS, sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_endog_error_class(c, slx, sv, pandas, via):
    d = K.spdata(c, k=2, endog=1 + int(c.rng.rand() < 0.5), rho=0.0)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    if via:
        kw["estimator"] = "kp98"
    o = c.func("error_sp:" + (via or "GM_Endog_Error"))(w=d.w, slx_lags=slx, **kw)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X, d.yend, d.q))
    gm_endog_post(c, o, d.y, X, d.yend, d.q, d.W)
    c.same("names", list(o.name_z), lab + d.nend + ["lambda"])
    c.same("instrument names", list(o.name_h), lab + ["lambda"] * 0 + d.nq)
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C04", ["error_sp:GM_Combo.__init__", "error_sp:GMM_Error.__init__", "utils:set_endog", "utils:sp_att"],
          cases=[dict(slx=s, sv=v, pandas=p, via=g, endog=e, w_lags=l, lag_q=lq) for s, v, p, g, e, l, lq in
                 [(0, None, False, None, 0, 1, True), (0, None, True, None, 1, 1, True), (1, None, False, None, 0, 1, True), (1, None, False, None, 1, 1, True),
                  (0, None, False, "GMM_Error", 1, 2, False), (1, [True, False], False, None, 0, 1, True), (2, None, False, None, 0, 2, True),
                  (0, None, False, "GMM_Error", 0, 2, True), (2, [False, True], False, None, 0, 1, True)]], sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_combo_class(c, slx, sv, pandas, via, endog, w_lags, lag_q):
    np = c.np
    d = K.spdata(c, k=2, endog=endog)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    if via:
        kw.update(estimator="kp98", add_wy=True)
    X, lab, ye, q = K.gm_design(c, d, slx, sv, True, w_lags, lag_q)
    c.assume(K.well(X, ye, q))
    o = c.func("error_sp:" + (via or "GM_Combo"))(w=d.w, slx_lags=slx, w_lags=w_lags, lag_q=lag_q, **kw)
    gm_endog_post(c, o, d.y, X, ye, q, d.W)
    rho = float(o.betas[-2, 0])
    c.eq("rho", o.rho, rho)
    if abs(rho) < 1:
        pe = np.linalg.solve(np.eye(d.n) - rho * d.W, np.hstack((X, ye[:, :-1])) @ o.betas[:-2])
        c.eq("predy_e", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
        c.eq("e_pred", o.e_pred, d.y - pe, tol=1e-4, scale=1 + abs(pe).max())
    c.same("names", list(o.name_z), lab + d.nend + ["W_dep", "lambda"])
    c.same("one name per instrument", len(o.name_q), q.shape[1])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C04", ["error_sp:GM_Error.__init__", "error_sp:GM_Endog_Error.__init__", "error_sp:GM_Combo.__init__"], cases=[dict(kind=k) for k in ["GM_Error", "GM_Endog_Error", "GM_Combo"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ the public constructors, for all data
@contract("C04", ["error_sp:GM_Error.__init__"], cases=K.SLX, num=False, note="k = 2 regressors, SLX options enumerated")
def gm_error_constructor(c, slx, sv):
    K.constructor(c, "error_sp", "GM_Error", "error_sp:BaseGM_Error", slx, sv, marks=("hard_bound",), tail=("lambda",))


@contract("C04", ["error_sp:GM_Endog_Error.__init__"], cases=[dict(s, endog=e) for s in K.SLX for e in (1, 2)], num=False, note="k = 2 regressors, SLX options enumerated")
def gm_endog_error_constructor(c, slx, sv, endog):
    K.constructor(c, "error_sp", "GM_Endog_Error", "error_sp:BaseGM_Endog_Error", slx, sv, endog, marks=("hard_bound",), tail=("lambda",))


@contract("C04", ["error_sp:GM_Combo.__init__", "utils:set_endog"], cases=[dict(s, endog=e, w_lags=l, lag_q=lq) for s in K.SLX for e, l, lq in ((0, 1, True), (0, 2, True), (1, 1, True), (1, 2, False))],
          num=False, note="k = 2 regressors, SLX, w_lags and lag_q enumerated")
def gm_combo_constructor(c, slx, sv, endog, w_lags, lag_q):
    K.constructor(c, "error_sp", "GM_Combo", "error_sp:BaseGM_Endog_Error", slx, sv, endog, True, w_lags, lag_q, marks=("hard_bound",), tail=("rho", "lambda"))


@contract("C04", ["error_sp:GMM_Error.__init__"], cases=[dict(endog=e, add_wy=a) for e in (False, True) for a in (False, True)], num=False,
          note="every argument, whatever its value, reaches the class that estimator, endogenous variables and add_wy select")
def gmm_error_dispatch(c, endog, add_wy):
    K.gmm_choice(c, "kp98", endog, add_wy, options=[o for o in ('w_lags','lag_q') if add_wy or o not in ("w_lags", "lag_q")])
