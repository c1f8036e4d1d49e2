"""C05: GM error models robust to heteroskedasticity (Arraiz et al. 2010)."""
from ..engine import contract
from . import common as K
from . import zoo


class NS:
    pass


def diag_of(c, v):
    """dense diagonal matrix from a column"""
    return c.np.diag(v[:, 0]) if not c.symbolic else c.np.diag(v.flatten())


@contract("C05", ["utils:get_A1_het"], cases=[dict(kind=k) for k in ("gen", "row", "asym")], draws=6)
def a1_het(c, kind):
    n = c.dim("n", 6, 30)
    w = c.weights("W", n, kind)
    W = c.wd(w)
    A = c.dense(c.func("utils:get_A1_het")(w.sparse))
    c.eq("A1 = W'W - diag(W'W)", A, W.T @ W - c.np.diag(c.np.diag(W.T @ W)))
    c.eq("zero diagonal", c.np.diag(A), c.np.zeros(n))


@contract("C05", ["utils:_moments2eqs"], draws=8)
def moments2eqs(c):
    n = c.dim("n", 6, 30)
    w, u = c.weights("W", n, "gen"), c.array("u", n, 1)
    A1 = c.spmatrix("A1", n, n)
    G, g = c.func("utils:_moments2eqs")(A1, w.sparse, u)
    lam = c.scalar("lam", -0.95, 0.95)
    e = u - lam * (c.wd(w) @ u)
    r = [g[i][0] - (G[i][0] * lam + G[i][1] * lam * lam) for i in range(2)]
    c.eq("moment 1: e'A1 e/n", r[0], (e.T @ c.dense(A1) @ e)[0, 0] / n)
    c.eq("moment 2: e'W e/n", r[1], (e.T @ c.wd(w) @ e)[0, 0] / n)
    c.same("shapes", (tuple(G.shape), tuple(g.shape)), ((2, 2), (2, 1)))
    c.frame("u unchanged", u)


@contract("C05", ["error_sp_het:get_psi_sigma", "error_sp_het:get_vc_het", "utils:get_A1_het"], draws=8)
def vc_het(c):
    n = c.dim("n", 6, 20)
    w, u = c.weights("W", n, "gen"), c.array("u", n, 1)
    lam = c.scalar("lam", -0.9, 0.9)
    W = c.wd(w)
    e = u - lam * (W @ u)
    S = c.func("error_sp_het:get_psi_sigma")(w.sparse, u, lam)
    Sd = c.dense(S)
    c.eq("Sigma = diag of squared filtered residuals", Sd, diag_of(c, e * e))
    A1 = c.func("utils:get_A1_het")(w.sparse)
    if c.symbolic:
        s = c.array("sig", n, 1)          # any diagonal Sigma
        S = c.sparse_mod.dia_matrix((s.flatten(), 0), shape=(n, n)).tocsr()
        Sd = diag_of(c, s)
    V = c.func("error_sp_het:get_vc_het")(w.sparse, A1, S)
    Ad = W.T @ W - c.np.diag(c.np.diag(W.T @ W))
    As = [Ad + Ad.T, W + W.T]
    for r in range(2):
        for q in range(2):
            c.eq("psi[%d,%d] = tr[(Ar+Ar')S(As+As')S]/2n" % (r, q), V[r][q], c.tr(As[r] @ Sd @ As[q] @ Sd) / (2 * n))
    c.frame("u unchanged", u)


@contract("C05", ["error_sp_het:get_vm_het", "error_sp_het:get_psi_sigma", "utils:get_spFilter"], draws=8)
def vm_het(c):
    np = c.np
    n, k = c.dim("n", 10, 30), c.dim("k", 1, 4)
    c.assume(n > k + 2)
    w, u, x = c.weights("W", n, "gen"), c.array("u", n, 1), c.array("x", n, k, maybe_constant=True)
    W = c.wd(w)
    lam = c.scalar("lam", -0.9, 0.9)
    G = c.array("G", 2, 2)
    psi = c.array("psi", 2, 2, symmetric=True)
    if not c.symbolic:
        c.assume(K.well(x))
        psi[:] = psi @ psi.T + np.eye(2)
    r = NS()
    r.x, r.u, r.k = x, u, k
    V = c.func("error_sp_het:get_vm_het")(G, lam, r, w.sparse, psi)
    xs = x - lam * (W @ x)
    e = u - lam * (W @ u)
    xi = c.inv(xs.T @ xs)
    xe = xs * e
    c.eq("coefficient block: White sandwich in filtered variables", V[:k, :k], xi @ (xe.T @ xe) @ xi)
    J = np.array([[G[0][0] + 2 * lam * G[0][1]], [G[1][0] + 2 * lam * G[1][1]]])
    c.eq("lambda block: (J'psi^-1 J)^-1 / n", V[k:, k:], c.inv(J.T @ c.inv(psi) @ J) / n)
    c.eq("no covariance between coefficients and lambda", V[:k, k:], np.zeros((k, 1)))
    c.eq("symmetric", V, V.T)


def _reg(c, with_hth=False):
    n, kz, kh = c.dim("n", 12, 30), c.dim("kz", 1, 3), c.dim("kh", 3, 5)
    c.assume(kh >= kz)
    c.assume(n > kz + kh + 2)
    w = c.weights("W", n, "row")
    r = NS()
    r.h, r.u, r.n, r.k = c.array("h", n, kh), c.array("u", n, 1), n, kz
    r.z = c.array("z", n, kz)
    r.P = c.array("P", kh, kz)
    return n, kz, kh, w, c.wd(w), r


@contract("C05", ["error_sp_het:get_P_hat", "sputils:spdot"], draws=6)
def p_hat(c):
    n, kz, kh, w, W, r = _reg(c)
    hthi = c.array("hthi", kh, kh, symmetric=True)
    if not c.symbolic:
        hthi[:] = c.np.linalg.inv(r.h.T @ r.h)
    P = c.func("error_sp_het:get_P_hat")(r, hthi, r.z)
    m = r.z.T @ r.h @ hthi @ r.h.T @ r.z
    c.eq("P = n (H'H)^-1 H'Z [Z'H (H'H)^-1 H'Z]^-1", P, n * (hthi @ r.h.T @ r.z @ c.inv(m)))


@contract("C05", ["error_sp_het:get_a1a2", "utils:inverse_prod"], cases=[dict(filt=f, inv=i) for f, i in ((True, "power_exp"), (False, "true_inv"), (False, "power_exp"))],
          symcases=[dict(filt=True, inv="power_exp"), dict(filt=False, inv="true_inv")], draws=6)
def a1a2(c, filt, inv):
    n, kz, kh, w, W, r = _reg(c)
    lam = c.scalar("lam", -0.8, 0.8)
    A1 = c.func("utils:get_A1_het")(w.sparse)
    Ad = c.dense(A1)
    if c.symbolic:
        # any symmetric A1
        A1 = c.spmatrix("A1", n, n, symmetric=True)
        Ad = c.dense(A1)
    a1, a2 = c.func("error_sp_het:get_a1a2")(w.sparse, A1, r, lam, r.P, r.z, inv, filt)
    us = r.u - lam * (W @ r.u)
    for lab, a, M in (("a1", a1, Ad), ("a2", a2, W)):
        alpha = -1 * (r.z.T @ ((M + M.T) @ us)) / n
        ref = r.h @ r.P @ alpha
        if filt:
            c.eq(lab + " = H P alpha", a, ref)
        else:
            c.eq("(I - lam W')%s = H P alpha" % lab, a - lam * (W.T @ a), ref, tol=1e-6, scale=1)


@contract("C05", ["error_sp_het:get_vc_het_tsls", "error_sp_het:get_psi_sigma", "error_sp_het:get_vc_het", "error_sp_het:get_a1a2"],
          cases=[dict(save=s) for s in (True, False)], draws=6, note="callee contracts: get_vc_het, get_a1a2 (same property)")
def vc_het_tsls(c, save):
    np = c.np
    n, kz, kh, w, W, r = _reg(c)
    lam = c.scalar("lam", -0.8, 0.8)
    e = r.u - lam * (W @ r.u)
    if c.symbolic:
        vc, b1, b2 = c.array("vc", 2, 2, symmetric=True), c.array("b1", n, 1), c.array("b2", n, 1)
        c.stub("error_sp_het:get_vc_het", lambda w_, A, S: vc)
        c.stub("error_sp_het:get_a1a2", lambda w_, A, reg, l, P, zs, i, f: [b1, b2])
        A1 = w.sparse
    else:
        A1 = c.func("utils:get_A1_het")(w.sparse)
        vc = np.asarray(c.func("error_sp_het:get_vc_het")(w.sparse, A1, c.func("error_sp_het:get_psi_sigma")(w.sparse, r.u, lam)))
        b1, b2 = c.func("error_sp_het:get_a1a2")(w.sparse, A1, r, lam, r.P, r.z, "power_exp", True)
    out = c.func("error_sp_het:get_vc_het_tsls")(w.sparse, A1, r, lam, r.P, r.z, "power_exp", filt=True, save_a1a2=save)
    psi = out[0] if save else out
    if save:
        c.eq("a1 returned", out[1], b1)
        c.eq("a2 returned", out[2], b2)
    a = [b1, b2]
    for i in range(2):
        for j in range(2):
            c.eq("psi[%d,%d] = trace part + a'S a/n" % (i, j), psi[i][j], vc[i][j] + ((a[i] * e).T @ (a[j] * e))[0, 0] / n)


@contract("C05", ["error_sp_het:get_Omega_GS2SLS", "error_sp_het:get_psi_sigma"], draws=8)
def omega_gs2sls(c):
    np = c.np
    n, kz, kh, w, W, r = _reg(c)
    lam = c.scalar("lam", -0.8, 0.8)
    G, psi = c.array("G", 2, 2), c.array("psi", 2, 2, symmetric=True)
    a1, a2 = c.array("a1", n, 1), c.array("a2", n, 1)
    if not c.symbolic:
        psi[:] = psi @ psi.T + np.eye(2)
    V = c.func("error_sp_het:get_Omega_GS2SLS")(w.sparse, lam, r, G, (psi, a1, a2), r.P)
    e = r.u - lam * (W @ r.u)
    he = r.h * e
    dd = he.T @ he / n
    dl = np.hstack((he.T @ (a1 * e), he.T @ (a2 * e))) / n
    J = np.array([[G[0][0] + 2 * lam * G[0][1]], [G[1][0] + 2 * lam * G[1][1]]])
    pi = c.inv(psi)
    o = c.inv(J.T @ pi @ J) @ (J.T @ pi)
    c.eq("coefficient block P' psi_dd P / n", V[:kz, :kz], r.P.T @ dd @ r.P / n)
    c.eq("coefficient-lambda block", V[:kz, kz:], r.P.T @ dl @ o.T / n)
    c.eq("lambda block (J' psi^-1 J)^-1 / n", V[kz:, kz:], c.inv(J.T @ pi @ J) / n)
    c.eq("lambda-coefficient block", V[kz:, :kz], (r.P.T @ dl @ o.T).T / n)


# ------------------------------------------------------------------ estimators: stage structure (symbolic), values (concrete)
from . import gmsteps as S   # noqa: E402


@contract("C05", ["error_sp_het:BaseGM_Error_Het.__init__", "utils:get_spFilter", "utils:iter_msg"],
          cases=[dict(max_iter=m, step1c=s, hb=h) for m, s, h in ((1, False, False), (1, True, True), (2, False, True), (3, True, False))], draws=5, timeout=120,
          note="callee contracts: BaseOLS (C01), optim_moments (C27), moment and variance pieces (C05); number of iterations up to 3 enumerated")
def base_error_het(c, max_iter, step1c, hb):
    np = c.np
    n, k = c.dim("n", 20, 45), c.dim("k", 1, 3)
    c.assume(n > k + 3)
    w = c.weights("W", n, "row" if not c.symbolic else "gen")
    y, x = c.array("y", n, 1, style="plain"), c.array("x", n, k, maybe_constant=True, style="plain")
    W = c.wd(w)
    kw = dict(max_iter=max_iter, step1c=step1c, hard_bound=hb)
    if not c.symbolic:
        c.assume(K.well(x))
        b, u, V, us, it = S.het_ref(c, y, x, W, max_iter, step1c)
        o, refused = S.run(c, lambda: c.func("error_sp_het:BaseGM_Error_Het")(y, x, w.sparse, **kw))
        if refused:
            c.true("refused only out of bounds", hb and S.out_of_bounds(c), c.steps_seen)
            return
        het_values(c, o, b, u, V, us, y - u, it, max_iter)
        c.frame_all("inputs unchanged")
        return
    R = S.recorders(c, n, k)
    c.stub("ols:BaseOLS.__init__", R.ols_init)
    c.stub("utils:get_A1_het", lambda s: "A1")
    mom = []
    c.stub("utils:_moments2eqs", lambda A1, s, u: mom.append((A1, s, u)) or ["G%d" % len(mom), "g%d" % len(mom)])
    c.stub("utils:optim_moments", R.optim)
    sig = []
    c.stub("error_sp_het:get_psi_sigma", lambda w_, u, l: sig.append((w_, u, l)) or "sigma%d" % len(sig))
    c.stub("error_sp_het:get_vc_het", lambda w_, A1, s: ("vc", A1, s))
    V = c.array("V", k + 1, k + 1, symmetric=True)
    vm = []
    c.stub("error_sp_het:get_vm_het", lambda G, lamb, reg, w_, psi: vm.append((G, lamb, reg, w_, psi)) or V)
    o, refused = S.run(c, lambda: c.func("error_sp_het:BaseGM_Error_Het")(y, x, w.sparse, **kw))
    c.structure(len(R.opt) >= 2 and len(R.ols) >= 2 and len(mom) == len(R.ols) and all(m[0] == "A1" for m in mom), "stages")
    lam, prev = R.lams[-1], R.lams[-2]
    if refused:
        c.true("refused only with hard bounds", hb)
        c.true("refused only out of bounds", abs(lam) >= 0.99)
        return
    J = len(R.ols) - 1
    c.true("iterations within the limit", 1 <= J <= max_iter)
    c.structure(len(R.opt) == 1 + J + (1 if step1c else 0), "one optimisation per iteration")
    c.same("iteration count", o.iteration, J)
    if hb:
        c.true("accepted only inside the bounds", abs(lam) < 0.99)
    else:
        c.true("warned iff out of bounds", hasattr(o, "warning") == bool(abs(lam) >= 0.99))
    us = [R.ols[0]["o"].u] + [y - x @ r["b"] for r in R.ols[1:]]
    for i, m in enumerate(mom):
        c.eq("moments %d from the residuals of that stage" % i, m[2], us[i])
        c.eq("moments %d use W" % i, c.dense(m[1]), W)
    first = R.opt[0]
    c.structure(first["m"] == ["G1", "g1"] and first["vc"] is None, "unweighted start")
    off = 1
    if step1c:
        c.structure(R.opt[1]["m"] == ["G1", "g1"] and R.opt[1]["vc"] is not None, "step 1c")
        chk_sig(c, sig, R.opt[1]["vc"], us[0], R.lams[0], "step 1c weights")
        off = 2
    for i in range(J):
        p = R.opt[off + i]
        lo = R.lams[off + i - 1]
        c.eq("iteration %d: y filtered at the previous lambda" % i, R.ols[i + 1]["y"], y - lo * (W @ y))
        c.eq("iteration %d: X filtered at the previous lambda" % i, R.ols[i + 1]["x"], x - lo * (W @ x))
        c.structure(p["m"] == ["G%d" % (i + 2), "g%d" % (i + 2)], "iteration moments")
        chk_sig(c, sig, p["vc"], us[i + 1], lo, "iteration %d weights" % i)
    c.eq("betas = [filtered OLS; lambda]", o.betas, np.vstack((R.ols[-1]["b"], np.array([[lam]]))))
    c.eq("predy", o.predy, x @ R.ols[-1]["b"])
    c.eq("u", o.u, us[-1])
    c.eq("e_filtered", o.e_filtered, us[-1] - lam * (W @ us[-1]))
    c.structure(len(vm) == 1 and vm[0][0] == "G%d" % len(mom) and vm[0][2] is o, "variance call")
    c.eq("variance evaluated at the final lambda", vm[0][1], lam)
    chk_sig(c, sig, vm[0][4], us[-1], lam, "variance weights")
    c.eq("vm", o.vm, V)
    c.frame("inputs unchanged", y, x)


def chk_sig(c, sig, vc, u, lam, label):
    c.structure(isinstance(vc, tuple) and vc[0] == "vc" and vc[1] == "A1" and str(vc[2]).startswith("sigma"), "weights from get_vc_het")
    s = sig[int(vc[2][5:]) - 1]
    c.eq(label + ": residuals", s[1], u)
    c.eq(label + ": lambda", s[2], lam)


def het_values(c, o, b, u, V, us, predy, it, max_iter):
    t = 2e-4
    c.eq("betas", o.betas, b, tol=t)
    c.eq("u", o.u, u, tol=t)
    c.eq("predy", o.predy, predy, tol=t)
    c.eq("e_filtered", o.e_filtered, us, tol=t)
    c.eq("vm", o.vm, V, tol=2e-3)
    if max_iter == 1:
        c.eq("iteration", o.iteration, it)
    c.true("iterations within the limit", 1 <= o.iteration <= max_iter)


@contract("C05", ["error_sp_het:BaseGM_Endog_Error_Het.__init__", "utils:get_spFilter", "sputils:sphstack"],
          cases=[dict(max_iter=m, step1c=s, hb=h) for m, s, h in ((1, False, False), (1, True, True), (2, False, False))], draws=5, timeout=200,
          note="callee contracts: BaseTSLS (C02), optim_moments (C27), moment and variance pieces (C05); number of iterations up to 2 enumerated; "
               "precondition: the last 2SLS coefficient of every stage lies in [-0.9, 0.9] (see the known finding)")
def base_endog_error_het(c, max_iter, step1c, hb):
    np = c.np
    if not c.symbolic:
        d = K.spdata(c, k=2, endog=1, rho=0.0)
        c.assume(K.well(d.X, d.yend, d.q))
        sc = 5.0
        ye = K.reg(c, "yend", d.yend * sc)
        kw = dict(max_iter=max_iter, step1c=step1c, hard_bound=hb)
        b, u, V, us, it, trail = S.het_endog_ref(c, d.y, d.X, ye, d.q, d.W, max_iter, step1c)
        c.assume(all(abs(t[-1, 0]) < 0.9 for t in trail))
        o, refused = S.run(c, lambda: c.func("error_sp_het:BaseGM_Endog_Error_Het")(d.y, d.X, ye, d.q, d.w.sparse, **kw))
        if refused:
            c.true("refused only out of bounds", hb and S.out_of_bounds(c), c.steps_seen)
            return
        het_values(c, o, b, u, V, us, d.y - u, it, max_iter)
        c.frame_all("inputs unchanged")
        return
    n, k, ke, kq = c.dim("n", 20, 45), c.dim("k", 1, 3), c.dim("ke", 1, 2), c.dim("kq", 2, 3)
    kz, kh = c.dim("kz", 2, 5), c.dim("kh", 2, 5)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k)
    yend, q = c.array("yend", n, ke), c.array("q", n, kq)
    W = c.wd(w)
    # the last coefficient of each stage is a scalar segment of its own
    kz1 = kz
    R = S.recorders(c, n, k, kz=kz1 + 1, kh=kh)
    c.stub("twosls:BaseTSLS.__init__", R.tsls_init)
    c.stub("utils:get_A1_het", lambda s: "A1")
    mom, vcs = [], []
    c.stub("utils:_moments2eqs", lambda A1, s, u: mom.append((A1, s, u)) or ["G%d" % len(mom), "g%d" % len(mom)])
    c.stub("utils:optim_moments", R.optim)

    def vct(w_, A1, reg, lam, P, zs, inv, filt=True, save_a1a2=False):
        vcs.append(dict(w=w_, A1=A1, u=reg.u, lam=lam, P=P, zs=zs, inv=inv, filt=filt))
        r = "vc%d" % len(vcs)
        return (r, "a1", "a2") if save_a1a2 else r
    c.stub("error_sp_het:get_vc_het_tsls", vct)
    ph, om = [], []
    c.stub("error_sp_het:get_P_hat", lambda reg, hthi, zf: ph.append((reg, hthi, zf)) or "Phat")
    V = c.array("V", kz1 + 2, kz1 + 2, symmetric=True)
    c.stub("error_sp_het:get_Omega_GS2SLS", lambda w_, lamb, reg, G, psi, P: om.append((w_, lamb, reg, G, psi, P)) or V)
    # precondition: stage coefficients inside [-0.9, 0.9]
    for i in range(max_iter + 1):
        b = c.array("b%d" % i, kz1 + 1, 1)
        c.assume(abs(b[-1, 0]) <= 0.9)
    kw = dict(max_iter=max_iter, step1c=step1c, hard_bound=hb)
    o, refused = S.run(c, lambda: c.func("error_sp_het:BaseGM_Endog_Error_Het")(y, x, yend, q, w.sparse, **kw))
    c.structure(len(R.opt) >= 2 and len(R.tsls) >= 2 and len(mom) == len(R.tsls), "stages")
    lam = R.lams[-1]
    if refused:
        c.true("refused only with hard bounds", hb)
        c.true("refused only out of bounds", abs(lam) >= 0.99)
        return
    J = len(R.tsls) - 1
    c.same("iteration count", o.iteration, J)
    c.true("iterations within the limit", 1 <= J <= max_iter)
    if hb:
        c.true("accepted only inside the bounds", abs(lam) < 0.99)
    us = [y - R.z @ r["b"] for r in R.tsls]
    for i, m in enumerate(mom):
        c.eq("moments %d from the residuals of that stage" % i, m[2], us[i])
        c.eq("moments %d use W" % i, c.dense(m[1]), W)
    c.structure(R.opt[0]["m"] == ["G1", "g1"] and R.opt[0]["vc"] is None, "unweighted start")
    off = 1
    if step1c:
        v = vcs[0]
        c.structure(R.opt[1]["m"] == ["G1", "g1"] and R.opt[1]["vc"] == "vc1", "step 1c")
        c.eq("step 1c: residuals", v["u"], us[0])
        c.eq("step 1c: lambda", v["lam"], R.lams[0])
        c.same("step 1c: unfiltered-instrument form, P of the first stage", (v["filt"], v["P"]), (False, "P0"))
        c.eq("step 1c: filtered Z", v["zs"], R.z - R.lams[0] * (W @ R.z))
        off = 2
    for i in range(J):
        p, lo, t = R.opt[off + i], R.lams[off + i - 1], R.tsls[i + 1]
        c.eq("iteration %d: y filtered" % i, t["y"], y - lo * (W @ y))
        c.eq("iteration %d: X filtered" % i, t["x"], x - lo * (W @ x))
        c.eq("iteration %d: Yend filtered" % i, t["yend"], yend - lo * (W @ yend))
        c.structure(t["h"] is R.h and t["q"] is None, "instruments unfiltered")
        v = vcs[off - 1 + i]
        c.structure(p["m"] == ["G%d" % (i + 2), "g%d" % (i + 2)] and p["vc"] == "vc%d" % (off + i), "iteration moments")
        c.eq("iteration %d weights: residuals" % i, v["u"], us[i + 1])
        c.eq("iteration %d weights: lambda" % i, v["lam"], lo)
        c.same("iteration %d weights: filtered form with that stage's P" % i, (v["filt"], v["P"]), (True, "P%d" % (i + 1)))
        c.eq("iteration %d weights: filtered Z" % i, v["zs"], np.hstack((x - lo * (W @ x), yend - lo * (W @ yend))))
    b = R.tsls[-1]["b"]
    c.eq("betas = [filtered 2SLS; lambda]", o.betas, np.vstack((b, np.array([[lam]]))))
    c.eq("predy", o.predy, R.z @ b)
    c.eq("u", o.u, us[-1])
    c.eq("e_filtered", o.e_filtered, us[-1] - lam * (W @ us[-1]))
    zs = R.z - lam * (W @ R.z)
    c.structure(len(ph) == 1 and ph[0][0] is o and ph[0][1] == "hthi" and len(om) == 1 and om[0][2] is o, "variance calls")
    c.eq("P at the final lambda", ph[0][2], zs)
    v = vcs[-1]
    c.same("final weights use P-hat", (v["P"], v["filt"]), ("Phat", True))
    c.eq("final weights: residuals", v["u"], us[-1])
    c.eq("final weights: lambda", v["lam"], lam)
    c.eq("final weights: filtered Z", v["zs"], zs)
    c.eq("variance at the final lambda", om[0][1], lam)
    c.same("variance from the last moments", (om[0][3], om[0][4], om[0][5]), ("G%d" % len(mom), ("vc%d" % len(vcs), "a1", "a2"), "Phat"))
    c.eq("vm", o.vm, V)
    c.frame("inputs unchanged", y, x, yend, q)


HETC = [dict(slx=s, sv=v, pandas=p, via=g, max_iter=m, step1c=st) for s, v, p, g, m, st in
        [(0, None, False, None, 1, False), (0, None, True, None, 3, True), (1, None, False, None, 1, True), (2, [True, False], False, None, 1, False),
         (1, [False, True], True, "GMM_Error", 2, False)]]


@contract("C05", ["error_sp_het:GM_Error_Het.__init__", "error_sp:GMM_Error.__init__"], cases=HETC, sym=False, draws=5,
          bounded="random data n<=60, options enumerated")
def gm_error_het_class(c, slx, sv, pandas, via, max_iter, step1c):
    d = K.spdata(c, k=2, rho=0.0)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X))
    b, u, V, us, it = S.het_ref(c, d.y, X, d.W, max_iter, step1c)
    key = "error_sp_het:GM_Error_Het"
    if via:
        key = "error_sp:GMM_Error"
        kw["estimator"] = "het"
    o = c.func(key)(w=d.w, slx_lags=slx, max_iter=max_iter, step1c=step1c, **kw)
    het_values(c, o, b, u, V, us, X @ b[:-1], it, max_iter)
    c.same("names", list(o.name_x), lab + ["lambda"])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C05", ["error_sp_het:GM_Endog_Error_Het.__init__", "error_sp:GMM_Error.__init__"], cases=HETC, sym=False, draws=5,
          bounded="random data n<=60, options enumerated; last endogenous coefficient within [-0.9, 0.9]")
def gm_endog_error_het_class(c, slx, sv, pandas, via, max_iter, step1c):
    d = K.spdata(c, k=2, endog=1 + int(c.rng.rand() < 0.5), rho=0.0)
    d.yend *= 5.0
    K.reg(c, "yend", d.yend)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    X, lab = K.design(c, d.x, d.nx, d.w, slx, vars_=sv)
    c.assume(K.well(X, d.yend, d.q))
    b, u, V, us, it, trail = S.het_endog_ref(c, d.y, X, d.yend, d.q, d.W, max_iter, step1c)
    c.assume(all(abs(t[-1, 0]) < 0.9 for t in trail))
    key = "error_sp_het:GM_Endog_Error_Het"
    if via:
        key = "error_sp:GMM_Error"
        kw["estimator"] = "het"
    o = c.func(key)(w=d.w, slx_lags=slx, max_iter=max_iter, step1c=step1c, inv_method="true_inv" if step1c or c.rng.rand() < 0.5 else "power_exp", **kw)
    het_values(c, o, b, u, V, us, np_(c).hstack((X, d.yend)) @ b[:-1], it, max_iter)
    c.same("names", list(o.name_z), lab + d.nend + ["lambda"])
    K.coef_table(c, o, d.y, "z")
    c.frame_all("inputs unchanged")


@contract("C05", ["error_sp_het:GM_Endog_Error_Het.__init__"], sym=False, draws=6, bounded="random data n<=60; endogenous coefficient near 2.5")
def gm_endog_error_het_large(c):
    d = K.spdata(c, k=1, endog=1, rho=0.0)
    y = K.reg(c, "y", d.y + 2 * d.yend)
    b, u, V, us, it, trail = S.het_endog_ref(c, y, d.X, d.yend, d.q, d.W)
    c.assume(all(abs(t[-1, 0]) > 1 for t in trail))
    o = c.func("error_sp_het:GM_Endog_Error_Het")(y, d.x, d.yend, d.q, d.w)
    c.eq("coefficient of an ordinary endogenous variable outside [-0.9, 0.9]", o.betas[-2], b[-2], tol=1e-3)


@contract("C05", ["error_sp_het:GM_Combo_Het.__init__", "error_sp_het:BaseGM_Combo_Het.__init__", "error_sp:GMM_Error.__init__", "utils:set_endog", "utils:sp_att"],
          cases=[dict(slx=s, sv=v, pandas=p, via=g, endog=e, w_lags=l, lag_q=lq, max_iter=m, step1c=st) for s, v, p, g, e, l, lq, m, st in
                 [(0, None, False, None, 0, 1, True, 1, False), (0, None, True, None, 1, 1, True, 1, True), (1, None, False, None, 0, 1, True, 2, False),
                  (1, None, False, None, 1, 1, True, 1, False), (0, None, False, "GMM_Error", 1, 2, False, 1, False),
                  (2, [False, True], False, None, 0, 1, True, 1, False)]], sym=False, draws=5,
          bounded="random data n<=60, options enumerated; spatial lag coefficient within [-0.9, 0.9]")
def gm_combo_het_class(c, slx, sv, pandas, via, endog, w_lags, lag_q, max_iter, step1c):
    d = K.spdata(c, k=2, endog=endog)
    kw = K.call_args(c, d, pandas)
    if sv:
        kw["slx_vars"] = list(sv)
    if via:
        kw.update(estimator="het", add_wy=True)
    X, lab, ye, q = K.gm_design(c, d, slx, sv, True, w_lags, lag_q)
    c.assume(K.well(X, ye, q))
    b, u, V, us, it, trail = S.het_endog_ref(c, d.y, X, ye, q, d.W, max_iter, step1c)
    c.assume(all(abs(t[-1, 0]) < 0.9 for t in trail))
    o = c.func("error_sp:GMM_Error" if via else "error_sp_het:GM_Combo_Het")(
        w=d.w, slx_lags=slx, w_lags=w_lags, lag_q=lag_q, max_iter=max_iter, step1c=step1c, **kw)
    het_values(c, o, b, u, V, us, c.np.hstack((X, ye)) @ b[:-1], it, max_iter)
    combo_post(c, o, d, X, ye, q, lab)
    c.frame_all("inputs unchanged")


def combo_post(c, o, d, X, ye, q, lab):
    np = c.np
    rho = float(o.betas[-2, 0])
    c.eq("rho", o.rho, rho)
    if abs(rho) < 1:
        pe = np.linalg.solve(np.eye(d.n) - rho * d.W, np.hstack((X, ye[:, :-1])) @ o.betas[:-2])
        c.eq("predy_e", o.predy_e, pe, tol=1e-4, scale=1 + abs(pe).max())
        c.eq("e_pred", o.e_pred, d.y - pe, tol=1e-4, scale=1 + abs(pe).max())
    c.same("names", list(o.name_z), lab + d.nend + ["W_dep", "lambda"])
    c.same("one name per instrument", len(o.name_q), q.shape[1])
    K.coef_table(c, o, d.y, "z")


def np_(c):
    return c.np


@contract("C05", ["error_sp_het:GM_Error_Het.__init__", "error_sp_het:GM_Endog_Error_Het.__init__", "error_sp_het:GM_Combo_Het.__init__"], cases=[dict(kind=k) for k in ["GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


@contract("C05", ["output:_summary_iteration"], cases=[dict(kind=k) for k in ("GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het", "GM_Error_Het_Regimes", "GM_Combo_Het_Regimes")],
          sym=False, draws=4, bounded="random data n<=80")
def printed(c, kind):
    """the summary names the options the estimates were computed with."""
    name, d, kw = zoo.cross_args(c, kind)
    kw["step1c"] = zoo.flip(c)
    kw["max_iter"] = zoo.pick(c, 1, 3)
    if kind.endswith("Regimes"):
        kw.update(regime_err_sep=True, constant_regi="many", cols2regi="all")
        if "Combo" in kind:
            kw.update(regime_lag_sep=True)
    o = zoo.build(c, name, kw)
    for m, text in K.sections(c, o):
        K.printed(c, text, "N. of iterations", getattr(m, "niter", None) or m.iteration)
        c.true("the printed step 1c is the one asked for", [l.split()[-1] for l in text.split("\n") if "Step1c" in l] == ["Yes" if kw["step1c"] else "No"], text[:800])


@contract("C05", ["error_sp_het:BaseGM_Combo_Het.__init__"], num=False, note="every argument, whatever its value, reaches BaseGM_Endog_Error_Het under its own name")
def combo_base(c):
    K.passes_on(c, "error_sp_het", "BaseGM_Combo_Het", "BaseGM_Endog_Error_Het")


# ------------------------------------------------------------------ the public constructors, for all data
HM = ("max_iter", "epsilon", "step1c", "hard_bound")


@contract("C05", ["error_sp_het:GM_Error_Het.__init__"], cases=K.SLX, num=False, note="k = 2 regressors, SLX options enumerated")
def gm_error_het_constructor(c, slx, sv):
    K.constructor(c, "error_sp_het", "GM_Error_Het", "error_sp_het:BaseGM_Error_Het", slx, sv, marks=HM, tail=("lambda",))


@contract("C05", ["error_sp_het:GM_Endog_Error_Het.__init__"], cases=[dict(s, endog=e) for s in K.SLX for e in (1, 2)], num=False, note="k = 2 regressors, SLX options enumerated")
def gm_endog_error_het_constructor(c, slx, sv, endog):
    K.constructor(c, "error_sp_het", "GM_Endog_Error_Het", "error_sp_het:BaseGM_Endog_Error_Het", slx, sv, endog, marks=HM + ("inv_method",), tail=("lambda",))


@contract("C05", ["error_sp_het:GM_Combo_Het.__init__", "utils:set_endog"],
          cases=[dict(s, endog=e, w_lags=l, lag_q=lq) for s in K.SLX for e, l, lq in ((0, 1, True), (0, 2, True), (1, 1, True), (1, 2, False))],
          num=False, note="k = 2 regressors, SLX, w_lags and lag_q enumerated")
def gm_combo_het_constructor(c, slx, sv, endog, w_lags, lag_q):
    K.constructor(c, "error_sp_het", "GM_Combo_Het", "error_sp_het:BaseGM_Combo_Het", slx, sv, endog, True, w_lags, lag_q, marks=HM + ("inv_method",), tail=("rho", "lambda"))


@contract("C05", ["error_sp:GMM_Error.__init__"], cases=[dict(endog=e, add_wy=a) for e in (False, True) for a in (False, True)], num=False,
          note="every argument, whatever its value, reaches the class that estimator, endogenous variables and add_wy select")
def gmm_error_dispatch(c, endog, add_wy):
    K.gmm_choice(c, "het", endog, add_wy, options=[o for o in ('w_lags','lag_q','max_iter','epsilon','step1c') if add_wy or o not in ("w_lags", "lag_q")])
