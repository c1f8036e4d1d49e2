"""C03: spatially lagged regressors and instruments."""
import numpy as np

from ..engine import contract
from . import common as K, zoo
from . import zoo
from .c02_tsls import tsls_post


@contract("C03", ["utils:get_lags", "sputils:sphstack"], cases=[dict(w_lags=l) for l in (1, 2, 3, 4)], draws=6,
          note="libpysal lag_spatial(w, x) = w.sparse @ x")
def get_lags(c, w_lags):
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 4)
    w, x = c.weights("W", n, "gen"), c.array("x", n, k)
    r = c.func("utils:get_lags")(w, x, w_lags)
    c.eq("column blocks are W^j X in order", r, K.lags(c, w, x, 1, w_lags))
    c.frame("x unchanged", x)


@contract("C03", ["utils:get_lags"], cases=[dict(w_lags=l, T=T) for l in (1, 2) for T in (1, 2, 3)], draws=4, bounded="T <= 3 periods")
def get_lags_panel(c, w_lags, T):
    n, k = c.dim("n", 8, 20), c.dim("k", 1, 3)
    w = c.weights("W", n, "gen")
    parts = [c.array("x%d" % t, n, k) for t in range(T)]
    x = c.np.vstack(parts)
    r = c.func("utils:get_lags")(w, x, w_lags, panel=True)
    ref = c.np.vstack([K.lags(c, w, p, 1, w_lags) for p in parts])
    c.eq("each period lagged with the same W", r, ref)


@contract("C03", ["utils:get_lags_split"], cases=[dict(m=m, s=s) for m in (2, 3, 4) for s in range(1, m)], draws=4)
def get_lags_split(c, m, s):
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 4)
    w, x = c.weights("W", n, "gen"), c.array("x", n, k)
    lo, hi = c.func("utils:get_lags_split")(w, x, m, s)
    c.eq("low block W..W^s", lo, K.lags(c, w, x, 1, s))
    c.eq("high block W^(s+1)..W^m", hi, K.lags(c, w, x, s + 1, m))
    c.frame("x unchanged", x)


@contract("C03", ["utils:get_lags_split"], cases=[dict(m=2, s=0), dict(m=2, s=2), dict(m=1, s=1), dict(m=2, s=3)], draws=2)
def get_lags_split_refuses(c, m, s):
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 4)
    w, x = c.weights("W", n, "gen"), c.array("x", n, k)
    c.raises("split outside 1..max-1 refused", lambda: c.func("utils:get_lags_split")(w, x, m, s))


@contract("C03", ["utils:set_endog", "utils:get_lags", "utils:get_lags_split", "sputils:sphstack"],
          cases=[dict(endog=e, w_lags=l, lag_q=lq, slx=s) for e in (False, True) for l in (1, 2, 3)
                 for lq in ((True, False) if e else (True,)) for s in (0, 1, 2)], draws=3)
def set_endog(c, endog, w_lags, lag_q, slx):
    np = c.np
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 3)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k)
    yend = q = None
    if endog:
        yend, q = c.array("yend", n, c.dim("ke", 1, 2)), c.array("q", n, c.dim("kq", 1, 3))
    r = c.func("utils:set_endog")(y, x, w, yend, q, w_lags, lag_q, slx)
    wy = c.wd(w) @ y
    c.same("number of results", len(r), 2 if slx == 0 else 3)
    if endog:
        c.eq("yend = [Yend WY]", r[0], np.hstack((yend, wy)))
        base = x if slx == 0 else K.wpow(c, w, x, slx)
        lv = np.hstack((base, q)) if lag_q else base
        c.eq("q = [Q, lags of (X, Q)]", r[1], np.hstack((q, K.lags(c, w, lv, 1, w_lags))))
        c.frame("inputs unchanged", yend, q)
    else:
        c.eq("yend = WY", r[0], wy)
        c.eq("q = lags of X beyond those in the model", r[1], K.lags(c, w, x, slx + 1, slx + w_lags))
    if slx:
        c.eq("lagged X in the model", r[2], K.lags(c, w, x, 1, slx))
    c.frame("inputs unchanged", y, x)


@contract("C03", ["utils:set_endog"], cases=[dict(sv=sv, slx=s, endog=e) for sv in ([True, False], [False, True], [True, True])
                                             for s in (1, 2) for e in (False, True)], draws=3, bounded="two X columns, subsets enumerated")
def set_endog_subset(c, sv, slx, endog):
    np = c.np
    n = c.dim("n", 8, 30)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, 2)
    yend = q = None
    if endog:
        yend, q = c.array("yend", n, c.dim("ke", 1, 2)), c.array("q", n, c.dim("kq", 1, 3))
    r = c.func("utils:set_endog")(y, x, w, yend, q, 1, True, slx, list(sv))
    sub = x[:, [i for i, v in enumerate(sv) if v]]
    c.eq("only the selected variables are lagged, every order", r[2], K.lags(c, w, sub, 1, slx))
    c.raises("wrong subset length refused", lambda: c.func("utils:set_endog")(y, x, w, yend, q, 1, True, slx, [True]))
    c.raises("unknown subset word refused", lambda: c.func("utils:set_endog")(y, x, w, yend, q, 1, True, slx, "some"))


@contract("C03", ["utils:set_endog_sparse"], cases=[dict(endog=e, w_lags=l, lag_q=lq) for e in (False, True) for l in (1, 2, 3)
                                                    for lq in ((True, False) if e else (True,))], draws=3)
def set_endog_sparse(c, endog, w_lags, lag_q):
    np = c.np
    n, k = c.dim("n", 8, 30), c.dim("k", 1, 3)
    w, y, x = c.weights("W", n, "gen"), c.array("y", n, 1), c.array("x", n, k)
    yend = q = None
    if endog:
        yend, q = c.array("yend", n, c.dim("ke", 1, 2)), c.array("q", n, c.dim("kq", 1, 3))
    r = c.func("utils:set_endog_sparse")(y, x, w.sparse, yend, q, w_lags, lag_q)
    wy = c.wd(w) @ y
    if endog:
        lv = np.hstack((x, q)) if lag_q else x
        c.eq("yend = [Yend WY]", r[0], np.hstack((yend, wy)))
        c.eq("q = [Q, lags of (X, Q)]", r[1], np.hstack((q, K.lags(c, w, lv, 1, w_lags))))
    else:
        c.eq("yend = WY", r[0], wy)
        c.eq("q = lags of X", r[1], K.lags(c, w, x, 1, w_lags))
    c.frame("inputs unchanged", y, x)


@contract("C03", ["user_output:flex_wx", "user_output:set_name_spatial_lags", "utils:get_lags"],
          cases=[dict(const=cst, slx=s, sv=sv) for cst in (True, False) for s in (1, 2, 3) for sv in ("All", [True, False, True], [False, True, False])],
          draws=3, bounded="three X columns, subsets enumerated")
def flex_wx(c, const, slx, sv):
    np = c.np
    n = c.dim("n", 8, 30)
    w, x = c.weights("W", n, "gen"), c.array("x", n, 3)
    xx = np.hstack((c.ones(n, 1), x)) if const else x
    names = (["CONSTANT"] if const else []) + ["a", "b", "d"]
    bx, bn = c.func("user_output:flex_wx")(w, xx, list(names), constant=const, slx_lags=slx, slx_vars=sv)
    idx = [0, 1, 2] if sv == "All" else [i for i, v in enumerate(sv) if v]
    c.eq("[X, WX_s, W^2X_s, ...]", bx, np.hstack((xx, K.lags(c, w, x[:, idx], 1, slx))))
    lab = names + ["W%s_%s" % ("" if l == 0 else str(l + 1), "abd"[i]) for l in range(slx) for i in idx]
    c.same("names follow the columns", list(bn), lab)
    c.frame("x unchanged", x)


@contract("C03", ["user_output:flex_wx", "utils:get_lags_split"],
          cases=[dict(slx=s, ql=q, sv=sv) for s in (1, 2) for q in (1, 2) for sv in ("All", [True, False, True])],
          draws=3, bounded="three X columns, subsets enumerated")
def flex_wx_instruments(c, slx, ql, sv):
    np = c.np
    n = c.dim("n", 8, 30)
    w, x = c.weights("W", n, "gen"), c.array("x", n, 3)
    xx = np.hstack((c.ones(n, 1), x))
    names = ["CONSTANT", "a", "b", "d"]
    bx, bn, bq, bqn = c.func("user_output:flex_wx")(w, xx, list(names), constant=True, slx_lags=slx, slx_vars=sv, q_lags=ql)
    idx = [0, 1, 2] if sv == "All" else [i for i, v in enumerate(sv) if v]
    rest = [i for i in range(3) if i not in idx]
    c.eq("[X, WX_s, ...]", bx, np.hstack((xx, K.lags(c, w, x[:, idx], 1, slx))))
    hi = K.lags(c, w, x[:, idx], slx + 1, slx + ql)
    if rest:
        c.eq("instruments: higher lags of the lagged, first lags of the others", bq,
             np.hstack((hi, K.lags(c, w, x[:, rest], 1, ql))))
    else:
        c.eq("instruments: higher lags", bq, hi)
    nm = lambda i, l: "W%s_%s" % ("" if l == 1 else str(l), "abd"[i])
    c.same("names of X", list(bn), names + [nm(i, l) for l in range(1, slx + 1) for i in idx])
    hn = [nm(i, l) for l in range(slx + 1, slx + ql + 1) for i in idx]
    ln = [nm(i, l) for l in range(1, ql + 1) for i in rest]
    c.same("instrument names as a set", sorted(bqn), sorted(hn + ln))


@contract("C03", ["twosls_sp:BaseGM_Lag.__init__", "utils:set_endog", "twosls:BaseTSLS.__init__"],
          cases=[dict(endog=e, w_lags=l, lag_q=lq, slx=s, robust=r) for (e, l, lq, s, r) in
                 [(False, 1, True, 0, None), (False, 2, True, 0, "white"), (True, 1, True, 0, None), (True, 1, False, 0, None), (True, 2, True, 0, "white"),
                  (False, 1, True, 1, None), (True, 1, True, 1, None), (False, 2, True, 2, None)]], draws=4, timeout=120)
def base_gm_lag(c, endog, w_lags, lag_q, slx, robust):
    np = c.np
    n, k = c.dim("n", 30, 50), c.dim("k", 1, 2)
    w, y, x = c.weights("W", n, "row"), c.array("y", n, 1), c.array("x", n, k)
    X = np.hstack((c.ones(n, 1), x))
    yend = q = None
    if endog:
        yend, q = c.array("yend", n, 1), c.array("q", n, c.dim("kq", 1, 2))
    wy = c.wd(w) @ y
    Xs = X if slx == 0 else np.hstack((X, K.lags(c, w, x, 1, slx)))
    if endog:
        base = x if slx == 0 else K.wpow(c, w, x, slx)
        lv = np.hstack((base, q)) if lag_q else base
        inst, ye = np.hstack((q, K.lags(c, w, lv, 1, w_lags))), np.hstack((yend, wy))
    else:
        inst, ye = K.lags(c, w, x, slx + 1, slx + w_lags), wy
    z, h = np.hstack((Xs, ye)), np.hstack((Xs, inst))
    if not c.symbolic:
        from .c02_tsls import _well
        c.assume(_well(c, Xs, ye, inst))
    if c.symbolic:
        # callee contract: BaseTSLS on (y, x, yend, q) has attributes determined by its arguments (proved in C02)
        got = {}

        def init(self, y, x, yend, q=None, h=None, robust=None, gwk=None, sig2n_k=False):
            got.update(y=y, x=x, yend=yend, q=q, h=h, robust=robust, gwk=gwk, sig2n_k=sig2n_k)
        c.stub("twosls:BaseTSLS.__init__", init)
        c.func("twosls_sp:BaseGM_Lag")(y, X, yend=yend, q=q, w=w, w_lags=w_lags, slx_lags=slx, lag_q=lag_q, robust=robust)
        c.eq("2SLS called with y", got["y"], y)
        c.eq("2SLS called with X (and its lags)", got["x"], Xs)
        c.eq("2SLS called with endogenous [Yend WY]", got["yend"], ye)
        c.eq("2SLS called with instruments", got["q"], inst)
        c.same("no full instrument matrix", got["h"] is None, True)
        c.same("robust passed through", got["robust"], robust)
        c.same("sig2n_k default", got["sig2n_k"], False)
    else:
        o = c.func("twosls_sp:BaseGM_Lag")(y, X, yend=yend, q=q, w=w, w_lags=w_lags, slx_lags=slx, lag_q=lag_q, robust=robust)
        tsls_post(c, o, y, z, h, n, robust, False)
    c.frame("inputs unchanged", y, x)


@contract("C03", ["twosls_sp:GM_Lag.__init__", "user_output:set_name_q_sp", "user_output:set_name_yend_sp", "utils:sp_att"],
          cases=[dict(endog=e, w_lags=l, lag_q=lq, slx=s, sv=sv) for (e, l, lq, s, sv) in
                 [(False, 1, True, 0, None), (False, 2, True, 0, None), (True, 1, True, 0, None), (True, 2, False, 0, None), (True, 1, False, 0, None),
                  (False, 1, True, 1, None), (True, 1, True, 1, None), (False, 1, True, 1, [True, False]), (False, 2, True, 2, None),
                  (False, 1, True, 2, [False, True])]],
          sym=False, draws=4, bounded="random data n<=60, options enumerated")
def gm_lag_class(c, endog, w_lags, lag_q, slx, sv):
    np = c.np
    n = c.dim("n", 40, 60)
    w = c.weights("W", n, "row")
    x = c.array("x", n, 2, style="plain")
    W = c.wd(w)
    y = np.linalg.solve(np.eye(n) - 0.4 * W, 1 + x @ np.array([[1.0], [-0.5]]) + c.array("e", n, 1, style="plain") * 0.5)
    c.inputs["y"], c.copies["y"] = y, y.copy()
    kw = {}
    yend = q = None
    ne, nq = [], []
    if endog:
        q = c.array("q", n, 2, style="plain")
        yend = q @ np.array([[1.0], [1.0]]) + c.array("v", n, 1, style="plain")
        y = y + np.linalg.solve(np.eye(n) - 0.4 * W, yend)
        ne, nq = ["en"], ["q1", "q2"]
        kw = dict(yend=yend, q=q, name_yend=list(ne), name_q=list(nq))
    if sv is not None:
        kw["slx_vars"] = list(sv)
    o = c.func("twosls_sp:GM_Lag")(y, x, w=w, w_lags=w_lags, lag_q=lag_q, slx_lags=slx, name_y="dep", name_x=["a", "b"], **kw)
    X, lab = K.design(c, x, ["a", "b"], w, slx, vars_=sv)
    wy = W @ y
    if endog:
        base = x if slx == 0 else K.wpow(c, w, x, slx)
        lv = np.hstack((base, q)) if lag_q else base
        inst, ye = np.hstack((q, K.lags(c, w, lv, 1, w_lags))), np.hstack((yend, wy))
    else:
        inst, ye = K.lags(c, w, x, slx + 1, slx + w_lags), wy
    z, h = np.hstack((X, ye)), np.hstack((X, inst))
    tsls_post(c, o, y, z, h, n)
    c.same("names of Z", list(o.name_z), lab + ne + ["W_dep"])
    if slx == 0:
        names = ["a", "b"] + (nq if (endog and lag_q) else [])
        qn = nq + ["W%s_%s" % ("" if l == 1 else str(l), v) for l in range(1, w_lags + 1) for v in names]
        c.same("names of the instruments follow their columns", list(o.name_q), qn)
    c.same("one name per instrument", len(o.name_q), inst.shape[1])
    rho = float(np.asarray(o.betas).reshape(-1)[-1])
    c.eq("rho is the last coefficient", o.rho, rho)
    if abs(rho) < 1:
        pe = np.linalg.solve(np.eye(n) - rho * W, z[:, :-1] @ o.betas[:-1])
        c.eq("predy_e", o.predy_e, pe, tol=1e-5)
        c.eq("e_pred", o.e_pred, y - pe, tol=1e-4, scale=abs(y).max())
    K.coef_table(c, o, y, "z")
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ every published name says what the column holds
@contract("C03", ["user_output:set_name_spatial_lags", "user_output:set_name_q_sp", "user_output:set_name_yend_sp", "user_output:set_name_h", "user_output:flex_wx"],
          cases=[dict(kind=k) for k in zoo.CROSS + zoo.REGIMES], sym=False, draws=4, timeout=120, bounded="random data n<=80, up to two lags")
def columns_named(c, kind):
    """reading 'W2_x' as W W x, and 'r_x' as x within regime r: regressors, endogenous variables and instruments hold what their names say."""
    import re
    kind, d, kw = zoo.cross_args(c, kind)
    reg = kind.endswith("_Regimes")
    if reg:
        kw.pop("regime_lag_sep", None)
        if kind != "ML_Lag_Regimes":
            kw["regime_err_sep"] = False
    if kw.get("slx_lags") is not None and not reg:
        kw["slx_lags"] = zoo.pick(c, 0, 1, 2)
        if kw["slx_lags"] and d.k > 1 and zoo.flip(c):
            kw["slx_vars"] = zoo.pick(c, [True, False], [False, True])
    try:
        o = zoo.build(c, kind, kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    W = d.W
    base = {"CONSTANT": np.ones((d.n, 1)), kw["name_y"]: np.asarray(d.y, dtype=float)}
    for nm, key in (("name_x", "x"), ("name_yend", "yend"), ("name_q", "q")):
        if key in kw:
            for j, s in enumerate(kw[nm]):
                base[s] = np.asarray(kw[key], dtype=float)[:, [j]]
    labels = sorted(set(map(str, kw["regimes"])), key=len, reverse=True) if reg else []

    def value(s):
        if s in base:
            return base[s]
        if s.startswith("_Global_"):
            return value(s[8:])
        for r in labels:
            if s.startswith(r + "_"):
                m = np.array([str(q) == r for q in kw["regimes"]]).reshape(-1, 1)
                return value(s[len(r) + 1:]) * m
        m = re.match(r"W(\d*)_", s)
        return np.linalg.matrix_power(W, int(m.group(1) or 1)) @ value(s[m.end():])

    def dense(a):
        return a.toarray() if hasattr(a, "toarray") else np.asarray(a, dtype=float)
    seen = 0
    for att, nm in (("x", "name_x"), ("yend", "name_yend"), ("q", "name_q"), ("h", "name_h"), ("z", "name_z")):
        a, names = getattr(o, att, None), getattr(o, nm, None)
        if a is None or names is None or np.ndim(dense(a)) != 2:
            continue
        a = dense(a)
        k = a.shape[1]
        c.true("a name for every column of " + att, len(names) >= k)
        for j in range(k):
            c.eq("columns of %s hold what their names say" % att, a[:, [j]], value(names[j]), tol=1e-9)
        seen += 1
    c.true("regressors published", seen >= 1)
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C03", ["twosls_sp:GM_Lag.__init__"], cases=[dict(s, endog=e, w_lags=l, lag_q=lq) for s in K.SLX for e, l, lq in ((0, 1, True), (0, 2, True), (1, 1, True), (1, 2, False))],
          num=False, note="k = 2 regressors, SLX, w_lags and lag_q enumerated")
def gm_lag_constructor(c, slx, sv, endog, w_lags, lag_q):
    K.constructor(c, "twosls_sp", "GM_Lag", "twosls_sp:BaseGM_Lag", slx, sv, endog, True, w_lags, lag_q, marks=("robust", "gwk", "sig2n_k", "hard_bound"), tail=("rho",),
                  whole_w=True, raw=True, given=dict(spat_diag=False, spat_impacts=None, robust=None, gwk=None))
