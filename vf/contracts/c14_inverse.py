"""C14: inverse products, power expansion and reduced-form prediction invert (I - rho W)."""
import numpy as np

from ..engine import contract
from . import common as K
from . import zoo


class _R:
    pass


def wform(c, w, form):
    if form == "W":
        return w
    if form == "sparse":
        return w.sparse
    return c.wd(w)


@contract("C14", ["utils:inverse_prod"], cases=[dict(form=f, post=p) for f in ("W", "sparse", "dense") for p in (False, True)], draws=4)
def true_inverse(c, form, post):
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 3)
    w = c.weights("W", n, "row")
    W = c.wd(w)
    rho = c.scalar("rho", -0.95, 0.95)
    d = c.array("data", n, k)
    A = c.eye(n) - rho * W
    v = c.func("utils:inverse_prod")(wform(c, w, form), d, rho, post_multiply=post, inv_method="true_inv")
    v = v if c.symbolic else np.asarray(v)
    if post:
        c.eq("v (I - rho W) = data'", v @ A, d.T, tol=1e-8)
    else:
        c.eq("(I - rho W) v = data", A @ v, d, tol=1e-8)
    c.raises("unknown method", lambda: c.func("utils:inverse_prod")(wform(c, w, form), d, rho, inv_method="something"))
    c.frame_all("inputs unchanged")


@contract("C14", ["utils:power_expansion", "utils:inverse_prod"], cases=[dict(form=f, post=p, via=v) for f in ("W", "sparse", "dense") for p in (False, True) for v in (False, True)],
          draws=4, note="loop invariant: (I - rho W) running_total = data - rho W increment; any number of iterations")
def power(c, form, post, via):
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 3)
    w = c.weights("W", n, "row")
    W = c.wd(w)
    rho = c.scalar("rho", -0.9, 0.9)
    d = c.array("data", n, k) * (1 if c.symbolic else zoo.pick(c, 1.0, 1e-6, 1e9))
    A = c.eye(n) - rho * W
    f = c.func("utils:inverse_prod" if via else "utils:power_expansion")
    kw = dict(inv_method="power_exp") if via else {}
    g = {}
    if c.symbolic:
        data = d.T if post else d
        shape = (k, n) if post else (n, k)

        def lhs(t):
            return t @ A if post else A @ t

        def nxt(e):
            return (e @ W) * rho if post else (W @ e) * rho

        def enter(L):
            c.eq("entry", lhs(L["running_total"]), data - nxt(L["increment"]))
            E = c.array("E", *shape)
            T = (data - nxt(E)) @ c.inv(A) if post else c.inv(A) @ (data - nxt(E))
            g.update(E=E)
            new = dict(L)
            new.update(running_total=T, increment=E, count=c.scalar("count"), test=c.scalar("test0"), test_old=c.scalar("test1"), norm=c.scalar("nrm0"),
                       norm_old=c.scalar("nrm1"))
            return new

        def back(L, s):
            c.eq("step: next increment", L["increment"], nxt(g["E"]))
            c.eq("step: invariant", lhs(L["running_total"]), data - nxt(L["increment"]))
        c.loop("utils:power_expansion", enter, back)
    try:
        v = f(wform(c, w, form), d, rho, post_multiply=post, **kw)
    except Exception as e:
        if type(e) is not Exception:
            raise
        if c.symbolic:
            c.true("refused", "will not converge" in str(e))
            return
        raise
    if c.symbolic:
        # on exit the last increment is below the threshold (or the iteration limit was reached)
        c.eq("remainder is rho W times the last increment", lhs(v), data - nxt(g["E"]))
    else:
        sc = float(np.abs(d).max())
        c.eq("(I - rho W) v = data", v @ A if post else A @ v, d.T if post else d, tol=1e-9 + 1e-9 / sc, scale=sc)
    c.frame_all("inputs unchanged")


@contract("C14", ["utils:power_expansion"], sym=False, draws=4, cases=[dict(post=p) for p in (False, True)], bounded="random integer data and star graphs")
def inverse(c, post):
    """row-standardised W whose powers grow in the 2-norm before they shrink; integer data; explicit threshold and iteration limit."""
    import libpysal
    m = c.rng.randint(20, 60)
    nb = {0: list(range(1, m))}
    nb.update({i: [0] for i in range(1, m)})
    w = libpysal.weights.W(nb, silence_warnings=True)
    w.transform = "r"
    W = w.sparse.toarray()
    rho = c.rng.uniform(-0.95, 0.95)
    A = np.eye(m) - rho * W
    for nm, d in (("spike", np.eye(m)[:, [0]] * 1.0), ("integers", c.rng.randint(-5, 6, (m, 2))), ("large", c.rng.rand(m, 1) * 1e8)):
        d0 = d.copy()
        v = c.func("utils:power_expansion")(w, d, rho, post_multiply=post)
        c.eq(nm, v @ A if post else A @ v, d0.T if post else d0, tol=1e-8, scale=max(1, np.abs(d0).max()))
        c.eq(nm + ": data unchanged", d, d0)
        v = c.func("utils:power_expansion")(w, d, rho, post_multiply=post, threshold=1e-3)
        e = np.abs((v @ A if post else A @ v) - (d0.T if post else d0))
        c.true(nm + ": error within the requested threshold", e.max() <= 1e-3 * (1 + 1e-9) * m)
        t, inc = (d0.T if post else d0) * 1.0, (d0.T if post else d0) * 1.0
        for _ in range(4):
            inc = (inc @ W if post else W @ inc) * rho
            t = t + inc
        c.eq(nm + ": four iterations", c.func("utils:power_expansion")(w, d, rho, post_multiply=post, threshold=0, max_iterations=4), t, tol=1e-10)
    c.raises("divergent series refused", lambda: c.func("utils:power_expansion")(w, np.ones((m, 1)), 1.3))


@contract("C14", ["utils:sp_att"], cases=[dict(hard=h) for h in (False, True)], draws=8)
def attribute(c, hard):
    n = c.dim("n", 8, 30)
    w = c.weights("W", n, "row")
    y, predy, wy = c.array("y", n, 1), c.array("predy", n, 1), c.array("wy", n, 1)
    rho = c.scalar("rho", -1.6, 1.6)
    calls = []
    if c.symbolic:
        def ip(w_, data, scalar, post_multiply=False, inv_method="power_exp", threshold=1e-10, max_iterations=None):
            calls.append((w_, data, scalar, post_multiply))
            return c.array("v%d" % len(calls), n, 1)
        c.stub("utils:inverse_prod", ip)
    r = rho if c.symbolic else np.array([rho])
    inside = (rho < 1) & (rho > -1) if c.symbolic else abs(rho) < 1
    if not c.symbolic:
        c.assume(abs(rho) < 0.97 or abs(rho) >= 1)
    try:
        ps, e, warn = c.func("utils:sp_att")(w, y, predy, wy, r, hard_bound=hard)
    except Exception as ex:
        if type(ex) is not Exception:
            raise
        c.true("refused only out of bounds with hard bounds", (~inside) if c.symbolic else not inside)
        c.true("hard bounds requested", hard)
        return
    if warn is None:
        c.true("no warning: rho inside (-1, 1)", inside)
        xb = predy - rho * wy
        if c.symbolic:
            c.structure(len(calls) == 1 and calls[0][0] is w and not calls[0][3], "one inverse product with w")
            c.eq("argument X b = predy - rho W y", calls[0][1], xb)
            c.eq("parameter", calls[0][2], rho)
            v = c.inputs["v1"]
            c.eq("reduced form prediction", ps, v)
            c.eq("prediction error", e, y - v)
        else:
            A = np.eye(n) - rho * c.wd(w)
            c.eq("(I - rho W) yhat = X b", A @ ps, xb, tol=1e-8)
            c.eq("prediction error", e, y - ps)
    else:
        c.true("warning: rho outside (-1, 1)", (~inside) if c.symbolic else not inside)
        c.true("not with hard bounds", not hard)
        c.true("says so", "outside the boundary" in warn)
        c.eq("no predictions", ps, y * 0)
        c.eq("no prediction errors", e, y * 0)
    c.frame_all("inputs unchanged")


LAGS = ["GM_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom", "ML_Lag", "GMM_Error"]


def reduced(c, o, W, rho, xb, y, tag=""):
    n = len(y)
    pe, ee = np.asarray(o.predy_e), np.asarray(o.e_pred)
    if abs(rho) < 1:
        c.assume(abs(rho) < 0.97)
        c.eq(tag + "(I - rho W) predy_e = X b", (np.eye(n) - rho * W) @ pe, xb, tol=1e-6, scale=1 + np.abs(xb).max())
        c.eq(tag + "e_pred = y - predy_e", ee, y - pe)
    else:
        c.eq(tag + "no prediction out of bounds", pe, np.zeros((n, 1)))
        c.eq(tag + "no prediction error out of bounds", ee, np.zeros((n, 1)))
        c.true(tag + "warning", "outside the boundary" in o.summary)


def guarded(f, c):
    try:
        return f()
    except Exception as e:
        c.assume("outside the maximum/minimum" not in str(e))
        raise


@contract("C14", ["utils:sp_att", "ml_lag:BaseML_Lag.__init__", "twosls_sp:GM_Lag.__init__", "error_sp:GM_Combo.__init__", "error_sp_het:GM_Combo_Het.__init__",
                  "error_sp_hom:GM_Combo_Hom.__init__"], cases=[dict(kind=k) for k in LAGS], sym=False, draws=6, timeout=120, bounded="random data n<=60")
def classes(c, kind):
    kind, d, kw = zoo.cross_args(c, kind)
    if kind == "GMM_Error":
        kw["add_wy"] = True
    if zoo.flip(c, 0.3):
        # data with a strong feedback: rho may leave the bounds
        d.y[:] = np.linalg.solve(np.eye(d.n) - 0.93 * d.W, d.y + 2)
        c.copies["y"] = d.y.copy()
    o = guarded(lambda: zoo.build(c, kind, kw), c)
    y = np.asarray(d.y)
    rho = float(np.asarray(o.rho).ravel()[0])
    wy = d.W @ y
    predy, u = np.asarray(o.predy), np.asarray(o.u)
    c.eq("u = y - predy", u, y - predy)
    reduced(c, o, d.W, rho, predy - rho * wy, y)
    ix = [i for i, t in enumerate(o.output["var_names"]) if str(t) == "W_" + str(o.name_y)]
    c.eq("rho is the coefficient of W y", np.asarray(o.betas)[ix[0], 0], rho)


@contract("C14", ["panel:BaseML_LagFE.__init__", "panel:BaseML_LagRE.__init__", "panel_fe:BasePanel_FE_Lag.__init__", "panel_re:BasePanel_RE_Lag.__init__"],
          cases=[dict(kind=k) for k in ("ML_LagFE", "ML_LagRE", "Panel_FE_Lag", "Panel_RE_Lag")], sym=False, draws=3, timeout=120, bounded="random panels n<=30, T<=5")
def panels(c, kind):
    o, info = zoo.make_panel(c, kind)
    d = info.d
    Wt = np.kron(np.eye(d.T), d.W)
    rho = float(np.asarray(o.rho).ravel()[0])
    k = np.asarray(o.x).shape[1]
    b = np.asarray(o.betas)[:k]
    y = np.asarray(o.y)
    xb = np.asarray(o.x) @ b
    c.eq("predy = X b + rho W y", np.asarray(o.predy), xb + rho * (Wt @ y), tol=1e-6, scale=1)
    c.eq("u = y - predy", np.asarray(o.u), y - np.asarray(o.predy), tol=1e-6, scale=1)
    pe = np.asarray(o.predy_e)
    c.eq("(I - rho W) predy_e = X b", pe - rho * (Wt @ pe), xb, tol=1e-5, scale=1 + np.abs(xb).max())
    c.eq("e_pred = y - predy_e", np.asarray(o.e_pred), y - pe)


REGL = ["GM_Lag_Regimes", "ML_Lag_Regimes", "GM_Combo_Regimes", "GM_Combo_Het_Regimes", "GM_Combo_Hom_Regimes"]


@contract("C14", ["twosls_sp_regimes:GM_Lag_Regimes.__init__", "twosls_sp_regimes:GM_Lag_Regimes.sp_att_reg", "ml_lag_regimes:ML_Lag_Regimes.__init__"],
          cases=[dict(kind=k) for k in REGL], sym=False, draws=6, timeout=120, bounded="random data n<=80, 2-3 regimes")
def regimes(c, kind):
    kind, d, kw = zoo.cross_args(c, kind)
    o = guarded(lambda: zoo.build(c, kind, kw), c)
    y = np.asarray(d.y)
    n = d.n
    u, predy = np.asarray(o.u), np.asarray(o.predy)
    R = kw["regimes"]
    c.eq("u = y - predy", u, y - predy)
    if kw.get("slx_lags") and hasattr(o, "multi") and not hasattr(o, "predy_e"):
        return                                       # separate SLX combo models report no reduced-form prediction
    if hasattr(o, "multi"):
        for r in sorted(set(R)):
            ix = [i for i in range(n) if R[i] == r]
            W = d.W[np.ix_(ix, ix)]
            W = W / W.sum(1, keepdims=True)
            m = o.multi[r]
            rho = float(np.asarray(m.rho).ravel()[0]) if hasattr(m, "rho") else float(np.asarray(m.betas)[-2, 0])
            # 2SLS with SLX terms: the lags (of X and y) are those of the complete W, the reduced form is that of the regime
            xb = predy[ix] - rho * ((d.W @ y)[ix] if kw.get("slx_lags") and kind == "GM_Lag_Regimes" else W @ y[ix])
            z = _R()
            z.predy_e, z.e_pred, z.summary = np.asarray(o.predy_e)[ix], np.asarray(m.e_pred), m.summary if hasattr(m, "summary") else ""
            if abs(rho) < 0.97:
                reduced(c, z, W, rho, xb, y[ix], "regime %s: " % r)
    elif not kw.get("regime_lag_sep"):
        rho = float(np.asarray(o.rho).ravel()[0]) if hasattr(o, "rho") else float(np.asarray(o.betas)[-1, 0])
        if hasattr(o, "e_pred") and hasattr(o, "predy_e"):
            reduced(c, o, d.W, rho, predy - rho * (d.W @ y), y)


@contract("C14", ["twosls_sp_regimes:GM_Lag_Regimes.__init__", "twosls_sp_regimes:GM_Lag_Regimes.sp_att_reg"], sym=False, draws=8, timeout=120,
          bounded="random data n<=80, 2-4 regimes")
def regimes_joint_lags(c):
    """lag coefficients that differ by regime in one joint model (separate lags with HAC variances)."""
    kind, d, kw = zoo.cross_args(c, "GM_Lag_Regimes")
    n, R = d.n, kw["regimes"]
    kw.update(regime_lag_sep=True, regime_err_sep=True, cols2regi="all", constant_regi=zoo.pick(c, "many", "one"), robust="hac",
              gwk=K.kernel_weights(c, "G", n))
    kw.pop("slx_lags", None), kw.pop("slx_vars", None)
    if kw.get("spat_impacts"):
        kw["spat_impacts"] = None
    o = guarded(lambda: zoo.build(c, kind, kw), c)
    y, u, predy = np.asarray(d.y), np.asarray(o.u), np.asarray(o.predy)
    c.same("shape of the reduced form", (np.asarray(o.predy_e).shape, np.asarray(o.e_pred).shape), ((n, 1), (n, 1)))
    c.eq("u = y - predy", u, y - predy)
    lag = o.output[[str(v).endswith("W_dep") for v in o.output["var_names"]]]
    rs = [float(v) for v in lag["coefficients"]]
    S = list(o.regimes_set)
    c.same("one lag coefficient per regime", len(rs), len(S))
    for r, rho in zip(S, rs):
        ix = [i for i in range(n) if R[i] == r]
        W = d.W[np.ix_(ix, ix)]
        W = W / W.sum(1, keepdims=True)
        z = _R()
        z.predy_e, z.e_pred, z.summary = np.asarray(o.predy_e)[ix], np.asarray(o.e_pred)[ix], o.summary
        if abs(rho) < 0.97:
            reduced(c, z, W, rho, predy[ix] - rho * (W @ y[ix]), y[ix], "regime %s: " % r)
