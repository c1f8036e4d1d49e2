"""C06: GM error models under homoskedasticity (Drukker et al. 2010, 2013)."""
from ..engine import contract
from . import common as K
from . import zoo
from . import gmsteps as S
from .c05_het import NS, _reg, het_values, combo_post


def _A(c, W, kind):
    np = c.np
    m = W.T @ W
    n = W.shape[0]
    if kind == "het":
        return m - np.diag(np.diag(m))
    t = c.tr(m) / n
    a = m - t * c.eye(n)
    return a / (1 + t * t) if kind == "hom_sc" else a


@contract("C06", ["utils:get_A1_hom", "utils:get_A1_het", "utils:get_A2_hom"], cases=[dict(kind=k, a1=a) for k in ("gen", "row", "asym") for a in ("hom", "hom_sc", "het")],
          draws=6)
def a1_a2_hom(c, kind, a1):
    n = c.dim("n", 6, 30)
    w = c.weights("W", n, kind)
    W = c.wd(w)
    if a1 == "het":
        A = c.func("utils:get_A1_het")(w.sparse)
    elif a1 == "hom":
        A = c.func("utils:get_A1_hom")(w.sparse)
    else:
        A = c.func("utils:get_A1_hom")(w.sparse, scalarKP=True)
    c.eq("A1 as defined", c.dense(A), _A(c, W, a1))
    A2 = c.func("utils:get_A2_hom")(w.sparse)
    c.eq("A2 = (W + W')/2", c.dense(A2), (W + W.T) / 2)


def _sym_A(c, name, n):
    A = c.spmatrix(name, n, n, symmetric=True)
    if not c.symbolic:
        A = (A + A.T).tocsr() / 2
    return A, c.dense(A)


@contract("C06", ["error_sp_hom:moments_hom"], draws=8)
def moments_hom(c):
    n = c.dim("n", 6, 30)
    w, u = c.weights("W", n, "gen"), c.array("u", n, 1)
    A1, D1 = _sym_A(c, "A1", n)
    A2, D2 = _sym_A(c, "A2", n)
    G, g = c.func("error_sp_hom:moments_hom")(w.sparse, A1, A2, u)
    lam = c.scalar("lam", -0.95, 0.95)
    e = u - lam * (c.wd(w) @ u)
    r = [g[i][0] - (G[i][0] * lam + G[i][1] * lam * lam) for i in range(2)]
    c.eq("moment 1: e'A1 e/n", r[0], (e.T @ D1 @ e)[0, 0] / n)
    c.eq("moment 2: e'A2 e/n", r[1], (e.T @ D2 @ e)[0, 0] / n)
    c.same("shapes", (tuple(G.shape), tuple(g.shape)), ((2, 2), (2, 1)))
    c.frame("u unchanged", u)


def _mu(c, e, n):
    return (e * e).sum() / n, (e * e * e).sum() / n, (e * e * e * e).sum() / n


@contract("C06", ["error_sp_hom:get_vc_hom", "utils:get_spFilter", "sputils:spdot"], cases=[dict(z=False, ols=False), dict(z=False, ols=True), dict(z=True, ols=False)], draws=8,
          timeout=120)
def vc_hom(c, z, ols):
    np = c.np
    n, kz, kh, w, W, r = _reg(c)
    A1, D1 = _sym_A(c, "A1", n)
    A2, D2 = _sym_A(c, "A2", n)
    if not c.symbolic:
        A2.setdiag(0)
        D2 = c.dense(A2)
    r.x = c.array("x", n, kz)
    lam = c.scalar("lam", -0.9, 0.9)
    zs = c.array("zs", n, kz)
    e = r.u - lam * (W @ r.u)
    kw = dict(z_s=zs) if z else (dict(for_omegaOLS=True) if ols else {})
    if not c.symbolic:
        c.assume(K.well(r.x) and K.well(r.h) and np.linalg.cond(r.h.T @ zs) < 1e3)
    psi, a1, a2, p = c.func("error_sp_hom:get_vc_hom")(w.sparse, A1, A2, r, lam, **kw)
    s2, m3, m4 = _mu(c, e, n)
    d = np.diag(D1)
    dd = (d * d).sum()
    q11 = 2 * s2 * s2 * c.tr(D1 @ D1) + (m4 - 3 * s2 * s2) * dd
    q12 = 2 * s2 * s2 * c.tr(D1 @ D2)
    q22 = 2 * s2 * s2 * c.tr(D2 @ D2)
    if z:
        H, Z = r.h, zs
        hz = H.T @ Z
        hh = c.inv(H.T @ H)
        P = n * (hh @ hz @ c.inv(hz.T @ hh @ hz))
        c.eq("P", p, P)
        for lab, a, D in (("a1", a1, D1), ("a2", a2, D2)):
            c.eq(lab + " = H P alpha", a, H @ P @ (-2 * (Z.T @ (D @ e)) / n))
        dv = d.reshape(n, 1)
        a1, a2 = (c.let(a1), c.let(a2)) if c.symbolic else (a1, a2)
        q11 = q11 + s2 * (a1.T @ a1)[0, 0] + 2 * m3 * (a1.T @ dv)[0, 0]
        q12 = q12 + s2 * (a1.T @ a2)[0, 0] + m3 * (a2.T @ dv)[0, 0]
        q22 = q22 + s2 * (a2.T @ a2)[0, 0]
    elif ols:
        xs = r.x - lam * (W @ r.x)
        c.eq("P", p, n * c.inv(xs.T @ xs))
    c.eq("psi11", psi[0][0], q11 / n)
    c.eq("psi12", psi[0][1], q12 / n)
    c.eq("psi21", psi[1][0], q12 / n)
    c.eq("psi22", psi[1][1], q22 / n)
    c.frame("inputs unchanged", r.u, r.h, r.x, zs)


@contract("C06", ["error_sp_hom:get_omega_hom"], draws=8, timeout=120, note="callee contract: get_vc_hom (same property)")
def omega_hom(c):
    np = c.np
    n, kz, kh, w, W, r = _reg(c)
    A1, D1 = _sym_A(c, "A1", n)
    A2, D2 = _sym_A(c, "A2", n)
    lam = c.scalar("lam", -0.9, 0.9)
    G = c.array("G", 2, 2)
    e = r.u - lam * (W @ r.u)
    zs = r.z - lam * (W @ r.z)
    rec = []
    if c.symbolic:
        psi, a1, a2 = c.array("psi", 2, 2, symmetric=True), c.array("a1", n, 1), c.array("a2", n, 1)
        P = r.P
        c.stub("error_sp_hom:get_vc_hom", lambda w_, A1_, A2_, reg, l, z_s=None, for_omegaOLS=False: rec.append((reg, l, z_s, for_omegaOLS)) or (psi, a1, a2, P))
    else:
        c.assume(K.well(r.h) and np.linalg.cond(r.h.T @ zs) < 1e3)
        psi, a1, a2, P = c.func("error_sp_hom:get_vc_hom")(w.sparse, A1, A2, r, lam, zs)
        c.assume(np.linalg.cond(psi) < 1e6)
    V, s2 = c.func("error_sp_hom:get_omega_hom")(w.sparse, A1, A2, r, lam, G)
    if c.symbolic:
        c.structure(len(rec) == 1 and rec[0][0] is r and not rec[0][3], "get_vc_hom call")
        c.eq("psi evaluated at lambda", rec[0][1], lam)
        c.eq("psi uses the filtered regressors", rec[0][2], zs)
    m2, m3, m4 = _mu(c, e, n)
    c.eq("sig2", s2, m2)
    J = np.array([[G[0][0] + 2 * lam * G[0][1]], [G[1][0] + 2 * lam * G[1][1]]])
    pi = c.inv(psi)
    LL = c.inv(J.T @ pi @ J) / n
    hz = r.h.T @ zs
    DD = c.inv(hz.T @ c.inv(r.h.T @ r.h) @ hz) * m2
    c.eq("coefficient block", V[:kz, :kz], DD)
    c.eq("lambda block (J' psi^-1 J)^-1 / n", V[kz:, kz:], LL)
    dv = np.diag(D1).reshape(n, 1)
    t = [(m3 * (r.h.T @ dv) + m2 * (r.h.T @ a1)) / n, m2 * (r.h.T @ a2) / n]
    pj = pi @ J
    DL = (P.T @ t[0] * pj[0, 0] + P.T @ t[1] * pj[1, 0]) * LL[0, 0]
    c.eq("coefficient-lambda block", V[:kz, kz:], DL, tol=1e-5)
    c.eq("lambda-coefficient block", V[kz:, :kz], DL.T, tol=1e-5)


@contract("C06", ["error_sp_hom:get_omega_hom_ols"], draws=8, timeout=120,
          note="callee contract: get_vc_hom (same property); the third-moment cross block is specified with the unfiltered regressors, as coded")
def omega_hom_ols(c):
    np = c.np
    n, kz, kh, w, W, r = _reg(c)
    A1, D1 = _sym_A(c, "A1", n)
    A2, D2 = _sym_A(c, "A2", n)
    lam = c.scalar("lam", -0.9, 0.9)
    G = c.array("G", 2, 2)
    r.x = c.array("x", n, kz)
    e = r.u - lam * (W @ r.u)
    xs = r.x - lam * (W @ r.x)
    rec = []
    if c.symbolic:
        psi, P = c.array("psi", 2, 2, symmetric=True), c.array("Pm", kz, kz, symmetric=True)
        c.stub("error_sp_hom:get_vc_hom", lambda w_, A1_, A2_, reg, l, z_s=None, for_omegaOLS=False: rec.append((reg, l, z_s, for_omegaOLS)) or (psi, 0.0, 0.0, P))
    else:
        c.assume(K.well(r.x))
        psi, _, _, P = c.func("error_sp_hom:get_vc_hom")(w.sparse, A1, A2, r, lam, for_omegaOLS=True)
        c.assume(np.linalg.cond(psi) < 1e6)
    V, s2 = c.func("error_sp_hom:get_omega_hom_ols")(w.sparse, A1, A2, r, lam, G)
    if c.symbolic:
        c.structure(len(rec) == 1 and rec[0][0] is r and rec[0][3] and rec[0][2] is None, "get_vc_hom call")
        c.eq("psi evaluated at lambda", rec[0][1], lam)
    m2, m3, m4 = _mu(c, e, n)
    c.eq("sig2", s2, m2)
    J = np.array([[G[0][0] + 2 * lam * G[0][1]], [G[1][0] + 2 * lam * G[1][1]]])
    pi = c.inv(psi)
    LL = c.inv(J.T @ pi @ J) / n
    c.eq("coefficient block", V[:kz, :kz], m2 * c.inv(xs.T @ xs))
    c.eq("lambda block (J' psi^-1 J)^-1 / n", V[kz:, kz:], LL)
    pj = pi @ J
    DL = P.T @ (m3 * (r.x.T @ np.diag(D1).reshape(n, 1)) / n) * pj[0, 0] * LL[0, 0]
    c.eq("coefficient-lambda block", V[:kz, kz:], DL, tol=1e-5)
    c.eq("lambda-coefficient block", V[kz:, :kz], DL.T, tol=1e-5)


# ------------------------------------------------------------------ estimators
STEPS = [dict(max_iter=m, A1=a, hb=h) for m, a, h in ((1, "hom_sc", False), (1, "het", True), (2, "hom", True), (3, "hom_sc", False))]


def _setup(c, R):
    c.stub("utils:get_A1_hom", lambda s, scalarKP=False: ("hom", scalarKP, s))
    c.stub("utils:get_A1_het", lambda s: ("het", False, s))
    c.stub("utils:get_A2_hom", lambda s: ("A2", s))
    c.stub("utils:optim_moments", R.optim)
    mom, vcs, om = [], [], []
    c.stub("error_sp_hom:moments_hom", lambda w_, A1, A2, u: mom.append((A1, A2, u, w_)) or ["G%d" % len(mom), "g%d" % len(mom)])

    def vc(w_, A1, A2, reg, l, z_s=None, for_omegaOLS=False):
        vcs.append(dict(A1=A1, A2=A2, u=reg.u, lam=l, zs=z_s, ols=for_omegaOLS))
        return ("psi%d" % len(vcs), "a1", "a2", "p")
    c.stub("error_sp_hom:get_vc_hom", vc)
    return mom, vcs, om


def _common(c, A1, mom, vcs, R, W, us, hb, o, refused, max_iter):
    want = {"hom": ("hom", False), "hom_sc": ("hom", True), "het": ("het", False)}[A1]
    for m in mom:
        c.same("A1 is the requested one", m[0][:2], want)
        c.structure(m[1][0] == "A2", "A2")
        c.eq("A1 from W", c.dense(m[0][2]), W)
        c.eq("A2 from W", c.dense(m[1][1]), W)
        c.eq("moments use W", c.dense(m[3]), W)
    for i, m in enumerate(mom):
        c.eq("moments %d from the residuals of that stage" % i, m[2], us[i])
    for v in vcs:
        c.same("psi with the requested A1", v["A1"][:2], want)
    c.structure(R.opt[0]["m"] == ["G1", "g1"] and R.opt[0]["vc"] is None, "unweighted start")
    for p in R.opt:
        c.same("hard_bound reaches the optimiser", p["hb"], hb)


def _iters(c, R, vcs, us, J):
    c.structure(len(R.opt) == J + 1 and len(vcs) == J, "one optimisation per iteration")
    for i in range(J):
        c.structure(R.opt[i + 1]["m"] == ["G%d" % (i + 2), "g%d" % (i + 2)] and R.opt[i + 1]["vc"] == "psi%d" % (i + 1), "iteration moments")
        c.eq("iteration %d weights: residuals" % i, vcs[i]["u"], us[i + 1])
        c.eq("iteration %d weights: lambda" % i, vcs[i]["lam"], R.lams[i])


@contract("C06", ["error_sp_hom:BaseGM_Error_Hom.__init__", "utils:get_spFilter", "utils:iter_msg"], cases=STEPS, draws=5, timeout=120,
          note="callee contracts: BaseOLS (C01), optim_moments (C27), moment and variance pieces (C06); number of iterations up to 3 enumerated")
def base_error_hom(c, max_iter, A1, hb):
    np = c.np
    n, k = c.dim("n", 20, 45), c.dim("k", 1, 3)
    c.assume(n > k + 3)
    w = c.weights("W", n, "row" if not c.symbolic else "gen")
    y, x = c.array("y", n, 1, style="plain"), c.array("x", n, k, maybe_constant=True, style="plain")
    W = c.wd(w)
    kw = dict(max_iter=max_iter, A1=A1, hard_bound=hb)
    if not c.symbolic:
        c.assume(K.well(x))
        b, u, V, us, it, s2 = S.hom_ref(c, y, x, W, max_iter, A1)
        o, refused = S.run(c, lambda: c.func("error_sp_hom:BaseGM_Error_Hom")(y, x, w.sparse, **kw))
        if refused:
            c.true("refused only out of bounds", hb and S.out_of_bounds(c), c.steps_seen)
            return
        c.assume(abs(b[-1, 0]) < 0.985)
        het_values(c, o, b, u, V, us, y - u, it, max_iter)
        c.eq("sig2", o.sig2, s2, tol=1e-3)
        c.frame_all("inputs unchanged")
        return
    R = S.recorders(c, n, k)
    c.stub("ols:BaseOLS.__init__", R.ols_init)
    mom, vcs, om = _setup(c, R)
    V, s2 = c.array("V", k + 1, k + 1, symmetric=True), c.scalar("s2")
    c.stub("error_sp_hom:get_omega_hom_ols", lambda w_, A1_, A2, reg, l, G: om.append((A1_, A2, reg, l, G)) or (V, s2))
    o, refused = S.run(c, lambda: c.func("error_sp_hom:BaseGM_Error_Hom")(y, x, w.sparse, **kw))
    c.structure(not refused and len(R.opt) >= 2 and len(R.ols) >= 2 and len(mom) == len(R.ols), "stages")
    J = len(R.ols) - 1
    c.true("iterations within the limit", 1 <= J <= max_iter)
    c.same("iteration count", o.iteration, J)
    us = [R.ols[0]["o"].u] + [y - x @ r["b"] for r in R.ols[1:]]
    _common(c, A1, mom, vcs, R, W, us, hb, o, refused, max_iter)
    _iters(c, R, vcs, us, J)
    for i in range(J):
        lo = R.lams[i]
        c.eq("iteration %d: y filtered at the previous lambda" % i, R.ols[i + 1]["y"], y - lo * (W @ y))
        c.eq("iteration %d: X filtered at the previous lambda" % i, R.ols[i + 1]["x"], x - lo * (W @ x))
    lam = R.lams[-1]
    c.eq("betas = [filtered OLS; lambda]", o.betas, np.vstack((R.ols[-1]["b"], np.array([[lam]]))))
    c.eq("predy", o.predy, x @ R.ols[-1]["b"])
    c.eq("u", o.u, us[-1])
    c.eq("e_filtered", o.e_filtered, us[-1] - lam * (W @ us[-1]))
    c.structure(len(om) == 1 and om[0][2] is o and om[0][4] == "G%d" % len(mom), "variance call")
    c.eq("variance at the final lambda", om[0][3], lam)
    c.eq("vm", o.vm, V)
    c.eq("sig2", o.sig2, s2)
    c.frame("inputs unchanged", y, x)


@contract("C06", ["error_sp_hom:BaseGM_Endog_Error_Hom.__init__", "utils:get_spFilter", "utils:iter_msg"], cases=STEPS, draws=5, timeout=120,
          note="callee contracts: BaseTSLS (C02), optim_moments (C27), moment and variance pieces (C06); number of iterations up to 3 enumerated")
def base_endog_error_hom(c, max_iter, A1, hb):
    np = c.np
    if not c.symbolic:
        d = K.spdata(c, k=2, endog=1, rho=0.0)
        c.assume(K.well(d.X, d.yend, d.q))
        kw = dict(max_iter=max_iter, A1=A1, hard_bound=hb)
        b, u, V, us, it, s2 = S.hom_endog_ref(c, d.y, d.X, d.yend, d.q, d.W, max_iter, A1)
        o, refused = S.run(c, lambda: c.func("error_sp_hom:BaseGM_Endog_Error_Hom")(d.y, d.X, d.yend, d.q, d.w.sparse, **kw))
        if refused:
            c.true("refused only out of bounds", hb and S.out_of_bounds(c), c.steps_seen)
            return
        c.assume(abs(b[-1, 0]) < 0.985)
        het_values(c, o, b, u, V, us, d.y - u, it, max_iter)
        c.eq("sig2", o.sig2, s2, tol=1e-3)
        c.frame_all("inputs unchanged")
        return
    n, k, ke, kq = c.dim("n", 20, 45), c.dim("k", 1, 3), c.dim("ke", 1, 2), c.dim("kq", 2, 3)
    kz, kh = c.dim("kz", 2, 5), c.dim("kh", 2, 5)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k)
    yend, q = c.array("yend", n, ke), c.array("q", n, kq)
    W = c.wd(w)
    R = S.recorders(c, n, k, kz=kz, kh=kh)
    c.stub("twosls:BaseTSLS.__init__", R.tsls_init)
    mom, vcs, om = _setup(c, R)
    V, s2 = c.array("V", kz + 1, kz + 1, symmetric=True), c.scalar("s2")
    c.stub("error_sp_hom:get_omega_hom", lambda w_, A1_, A2, reg, l, G: om.append((A1_, A2, reg, l, G)) or (V, s2))
    o, refused = S.run(c, lambda: c.func("error_sp_hom:BaseGM_Endog_Error_Hom")(y, x, yend, q, w.sparse, max_iter=max_iter, A1=A1, hard_bound=hb))
    c.structure(not refused and len(R.opt) >= 2 and len(R.tsls) >= 2 and len(mom) == len(R.tsls), "stages")
    J = len(R.tsls) - 1
    c.true("iterations within the limit", 1 <= J <= max_iter)
    c.same("iteration count", o.iteration, J)
    us = [y - R.z @ r["b"] for r in R.tsls]
    _common(c, A1, mom, vcs, R, W, us, hb, o, refused, max_iter)
    _iters(c, R, vcs, us, J)
    for v, a in (("y", y), ("x", x), ("yend", yend), ("q", q)):
        c.eq("first stage on the raw " + v, R.tsls[0][v], a)
    for i in range(J):
        lo, t = R.lams[i], R.tsls[i + 1]
        c.eq("iteration %d: y filtered" % i, t["y"], y - lo * (W @ y))
        c.eq("iteration %d: X filtered" % i, t["x"], x - lo * (W @ x))
        c.eq("iteration %d: Yend filtered" % i, t["yend"], yend - lo * (W @ yend))
        c.structure(t["h"] is R.h and t["q"] is None, "instruments unfiltered")
        c.eq("iteration %d weights: filtered Z" % i, vcs[i]["zs"], t["o"].z)
    lam = R.lams[-1]
    b = R.tsls[-1]["b"]
    c.eq("betas = [filtered 2SLS; lambda]", o.betas, np.vstack((b, np.array([[lam]]))))
    c.eq("predy", o.predy, R.z @ b)
    c.eq("u", o.u, us[-1])
    c.eq("e_filtered", o.e_filtered, us[-1] - lam * (W @ us[-1]))
    c.structure(len(om) == 1 and om[0][2] is o and om[0][4] == "G%d" % len(mom), "variance call")
    c.eq("variance at the final lambda", om[0][3], lam)
    c.eq("vm", o.vm, V)
    c.eq("sig2", o.sig2, s2)
    c.frame("inputs unchanged", y, x, yend, q)


HOMC = [dict(slx=s, sv=v, pandas=p, via=g, max_iter=m, A1=a) for s, v, p, g, m, a in
        [(0, None, False, None, 1, "hom_sc"), (0, None, True, None, 3, "het"), (1, None, False, None, 1, "hom"), (2, [True, False], False, None, 1, "hom_sc"),
         (1, [False, True], True, "GMM_Error", 2, "hom_sc")]]


@contract("C06", ["error_sp_hom:GM_Error_Hom.__init__", "error_sp:GMM_Error.__init__"], cases=HOMC, sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_error_hom_class(c, slx, sv, pandas, via, max_iter, A1):
    d = K.spdata(c, k=2, rho=0.0)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X))
    b, u, V, us, it, s2 = S.hom_ref(c, d.y, X, d.W, max_iter, A1)
    key = "error_sp_hom:GM_Error_Hom"
    if via:
        key = "error_sp:GMM_Error"
        kw["estimator"] = "hom"
    o = c.func(key)(w=d.w, slx_lags=slx, max_iter=max_iter, A1=A1, **kw)
    c.assume(abs(b[-1, 0]) < 0.985)
    het_values(c, o, b, u, V, us, X @ b[:-1], it, max_iter)
    c.eq("sig2", o.sig2, s2, tol=1e-3)
    c.same("names", list(o.name_x), lab + ["lambda"])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C06", ["error_sp_hom:GM_Endog_Error_Hom.__init__", "error_sp:GMM_Error.__init__"], cases=HOMC, sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_endog_error_hom_class(c, slx, sv, pandas, via, max_iter, A1):
    d = K.spdata(c, k=2, endog=1 + int(c.rng.rand() < 0.5), rho=0.0)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X, d.yend, d.q))
    b, u, V, us, it, s2 = S.hom_endog_ref(c, d.y, X, d.yend, d.q, d.W, max_iter, A1)
    key = "error_sp_hom:GM_Endog_Error_Hom"
    if via:
        key = "error_sp:GMM_Error"
        kw["estimator"] = "hom"
    o = c.func(key)(w=d.w, slx_lags=slx, max_iter=max_iter, A1=A1, **kw)
    c.assume(abs(b[-1, 0]) < 0.985)
    het_values(c, o, b, u, V, us, c.np.hstack((X, d.yend)) @ b[:-1], it, max_iter)
    c.eq("sig2", o.sig2, s2, tol=1e-3)
    c.same("names", list(o.name_z), lab + d.nend + ["lambda"])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C06", ["error_sp_hom:GM_Combo_Hom.__init__", "error_sp_hom:BaseGM_Combo_Hom.__init__", "error_sp:GMM_Error.__init__", "utils:set_endog", "utils:sp_att"],
          cases=[dict(slx=s, sv=v, pandas=p, via=g, endog=e, w_lags=l, lag_q=lq, max_iter=m, A1=a) for s, v, p, g, e, l, lq, m, a in
                 [(0, None, False, None, 0, 1, True, 1, "hom_sc"), (0, None, True, None, 1, 1, True, 1, "het"), (1, None, False, None, 0, 1, True, 2, "hom"),
                  (1, None, False, None, 1, 1, True, 1, "hom_sc"), (0, None, False, "GMM_Error", 1, 2, False, 1, "hom_sc"),
                  (2, [False, True], False, None, 0, 1, True, 1, "hom_sc")]], sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_combo_hom_class(c, slx, sv, pandas, via, endog, w_lags, lag_q, max_iter, A1):
    d = K.spdata(c, k=2, endog=endog)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    if via:
        kw.update(estimator="hom", add_wy=True)
    X, lab, ye, q = K.gm_design(c, d, slx, sv, True, w_lags, lag_q)
    c.assume(K.well(X, ye, q))
    b, u, V, us, it, s2 = S.hom_endog_ref(c, d.y, X, ye, q, d.W, max_iter, A1)
    o = c.func("error_sp:GMM_Error" if via else "error_sp_hom:GM_Combo_Hom")(
        w=d.w, slx_lags=slx, w_lags=w_lags, lag_q=lag_q, max_iter=max_iter, A1=A1, **kw)
    c.assume(abs(b[-1, 0]) < 0.985)
    het_values(c, o, b, u, V, us, c.np.hstack((X, ye)) @ b[:-1], it, max_iter)
    combo_post(c, o, d, X, ye, q, lab)
    c.frame_all("inputs unchanged")


@contract("C06", ["error_sp_hom:GM_Error_Hom.__init__", "error_sp_hom:GM_Endog_Error_Hom.__init__", "error_sp_hom:GM_Combo_Hom.__init__"], cases=[dict(kind=k) for k in ["GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


@contract("C06", ["output:_summary_iteration"], cases=[dict(kind=k) for k in ("GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom", "GM_Error_Hom_Regimes", "GM_Combo_Hom_Regimes")],
          sym=False, draws=4, bounded="random data n<=80")
def printed(c, kind):
    """the summary names the options the estimates were computed with."""
    name, d, kw = zoo.cross_args(c, kind)
    kw["A1"] = zoo.pick(c, "hom", "hom_sc", "het")
    kw["max_iter"] = zoo.pick(c, 1, 3)
    if kind.endswith("Regimes"):
        kw.update(regime_err_sep=True, constant_regi="many", cols2regi="all")
        if "Combo" in kind:
            kw.update(regime_lag_sep=True)
    o = zoo.build(c, name, kw)
    for m, text in K.sections(c, o):
        K.printed(c, text, "N. of iterations", getattr(m, "niter", None) or m.iteration)
        c.true("the printed A1 is the one asked for", [l.split()[-1] for l in text.split("\n") if "A1 type" in l] == [kw["A1"]], text[:800])


@contract("C06", ["error_sp_hom:BaseGM_Combo_Hom.__init__"], num=False, note="every argument, whatever its value, reaches BaseGM_Endog_Error_Hom under its own name")
def combo_base(c):
    K.passes_on(c, "error_sp_hom", "BaseGM_Combo_Hom", "BaseGM_Endog_Error_Hom")


# ------------------------------------------------------------------ the public constructors, for all data
MM = ("max_iter", "epsilon", "A1", "hard_bound")


@contract("C06", ["error_sp_hom:GM_Error_Hom.__init__"], cases=K.SLX, num=False, note="k = 2 regressors, SLX options enumerated")
def gm_error_hom_constructor(c, slx, sv):
    K.constructor(c, "error_sp_hom", "GM_Error_Hom", "error_sp_hom:BaseGM_Error_Hom", slx, sv, marks=MM, tail=("lambda",))


@contract("C06", ["error_sp_hom:GM_Endog_Error_Hom.__init__"], cases=[dict(s, endog=e) for s in K.SLX for e in (1, 2)], num=False, note="k = 2 regressors, SLX options enumerated")
def gm_endog_error_hom_constructor(c, slx, sv, endog):
    K.constructor(c, "error_sp_hom", "GM_Endog_Error_Hom", "error_sp_hom:BaseGM_Endog_Error_Hom", slx, sv, endog, marks=MM, tail=("lambda",))


@contract("C06", ["error_sp_hom:GM_Combo_Hom.__init__", "utils:set_endog"],
          cases=[dict(s, endog=e, w_lags=l, lag_q=lq) for s in K.SLX for e, l, lq in ((0, 1, True), (0, 2, True), (1, 1, True), (1, 2, False))],
          num=False, note="k = 2 regressors, SLX, w_lags and lag_q enumerated")
def gm_combo_hom_constructor(c, slx, sv, endog, w_lags, lag_q):
    K.constructor(c, "error_sp_hom", "GM_Combo_Hom", "error_sp_hom:BaseGM_Combo_Hom", slx, sv, endog, True, w_lags, lag_q, marks=MM, tail=("rho", "lambda"))


@contract("C06", ["error_sp:GMM_Error.__init__"], cases=[dict(endog=e, add_wy=a) for e in (False, True) for a in (False, True)], num=False,
          note="every argument, whatever its value, reaches the class that estimator, endogenous variables and add_wy select")
def gmm_error_dispatch(c, endog, add_wy):
    K.gmm_choice(c, "hom", endog, add_wy, options=[o for o in ('w_lags','lag_q','max_iter','epsilon','A1') if add_wy or o not in ("w_lags", "lag_q")])
