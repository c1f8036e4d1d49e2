"""Pieces of specification shared by several contracts."""
import numpy as np


def kernel_weights(c, name, n):
    """weights with ones on the diagonal (kernel weights for HAC)."""
    if c.symbolic:
        from .. import shims, arr as A
        from ..terms import mkhead, Expr
        mkhead(name, "A")
        d = A.dim_of(n)
        w = shims.SymW(name, n, sparse=A.csr_matrix((d, d), {(0, 0): Expr.factor(name, (A.fv(0), A.fv(1)))}), transform="o")
        w.__class__ = type("Kernel", (shims.SymW,), {})
        return w
    from libpysal.weights import Kernel
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = Kernel(c.rng.rand(n, 2), k=int(min(n - 1, c.rng.randint(2, 7))), fixed=bool(c.rng.rand() < 0.5),
                   function="triangular", diagonal=True)
    c.inputs[name] = w
    c.copies[name] = w.sparse.toarray().copy()
    return w


def coef_table(c, o, y, stat):
    """std errors, statistics and p-values of the published coefficient table follow from betas and vm (concrete)."""
    b, vm = np.asarray(o.betas, float).reshape(-1), np.asarray(o.vm, float)
    m = vm.shape[0]
    se = np.sqrt(np.diag(vm))
    b = b[:m]
    c.eq("std_err = sqrt(diag(vm))", o.std_err, se)
    z = b / se
    st = getattr(o, "t_stat" if stat == "t" else "z_stat")
    c.eq("%s statistics" % stat, [s[0] for s in st], z)
    if stat == "t":
        p = 2 * c.stats.t.sf(np.abs(z), o.n - o.k)
    else:
        p = 2 * c.stats.norm.sf(np.abs(z))
    c.eq("%s p-values" % stat, [s[1] for s in st], p)


def design(c, x, names, w=None, slx=0, constant=True, vars_=None):
    """[1, X, WX, W^2 X, ...] and its labels (concrete)."""
    n = x.shape[0]
    X = np.hstack([np.ones((n, 1)), x]) if constant else x
    lab = (["CONSTANT"] if constant else []) + list(names)
    sel = list(range(x.shape[1])) if vars_ is None else [i for i, v in enumerate(vars_) if v]
    cur = x[:, sel]
    for l in range(slx):
        cur = c.wd(w) @ cur
        X = np.hstack([X, cur])
        lab += ["W%s_%s" % ("" if l == 0 else str(l + 1), names[i]) for i in sel]
    return X, lab


def wpow(c, w, x, p):
    W = c.wd(w)
    for _ in range(p):
        x = W @ x
    return x


def lags(c, w, x, lo, hi):
    """[W^lo x, ..., W^hi x]"""
    return c.np.hstack([wpow(c, w, x, p) for p in range(lo, hi + 1)])


class Data:
    """Concrete spatial data for class-level contracts (numeric mode)."""


def spdata(c, n=None, k=None, endog=0, nq=None, wkind="row", lam=None, rho=None, noise=0.5, nlo=35, nhi=60, want_w=True):
    np_ = np
    d = Data()
    d.n = n if n is not None else c.dim("n", nlo, nhi)
    d.k = k if k is not None else c.dim("k", 1, 3)
    n, k = d.n, d.k
    d.w = c.weights("W", n, wkind) if want_w else None
    d.W = c.wd(d.w) if want_w else np_.zeros((n, n))
    d.x = c.array("x", n, k, style="plain")
    d.e = c.rng.randn(n, 1) * noise
    lam = c.rng.uniform(-0.3, 0.6) if lam is None else lam
    rho = c.rng.uniform(-0.2, 0.5) if rho is None else rho
    r = max(1.0, float(np_.abs(np_.linalg.eigvals(d.W)).max()) if want_w else 1.0)
    u = np_.linalg.solve(np_.eye(n) - lam / r * d.W, d.e)
    m = 1 + d.x @ c.rng.uniform(-1.5, 1.5, (k, 1))
    d.yend = d.q = None
    d.nend, d.nq = [], []
    if endog:
        kq = nq if nq is not None else endog + 1
        d.q = c.rng.randn(n, kq)
        d.yend = d.q @ c.rng.uniform(0.5, 1.5, (kq, endog)) * (1 + 0.3 * np_.arange(endog)) + c.rng.randn(n, endog) * 0.5 + d.e
        for j in range(endog):
            d.yend[:, j] += d.q[:, j] * (j + 1)
        m = m + d.yend @ c.rng.uniform(0.5, 1.0, (endog, 1))
        d.nend, d.nq = ["en%d" % i for i in range(endog)], ["q%d" % i for i in range(kq)]
        reg(c, "yend", d.yend)
        reg(c, "q", d.q)
    d.y = np_.linalg.solve(np_.eye(n) - rho / r * d.W, m + u)
    reg(c, "y", d.y)
    d.nx = ["x%d" % i for i in range(k)]
    d.ny = "dep"
    d.X = np_.hstack([np_.ones((n, 1)), d.x])
    return d


def reg(c, name, a):
    """register a concrete input so that frame_all watches it and the replay file carries it."""
    c.inputs[name] = a
    c.copies[name] = a.copy()
    return a


def as_pandas(d):
    """pandas versions of the data, with names as column labels."""
    import pandas as pd
    out = dict(y=pd.Series(d.y[:, 0], name=d.ny), x=pd.DataFrame(d.x, columns=d.nx))
    if d.yend is not None:
        out.update(yend=pd.DataFrame(d.yend, columns=d.nend), q=pd.DataFrame(d.q, columns=d.nq))
    return out


def call_args(c, d, pandas=False, names=True):
    """keyword arguments y, x, [yend, q], names for a class call."""
    if pandas:
        return as_pandas(d)
    kw = dict(y=d.y, x=d.x, name_y=d.ny, name_x=list(d.nx))
    if d.yend is not None:
        kw.update(yend=d.yend, q=d.q, name_yend=list(d.nend), name_q=list(d.nq))
    return kw


def gm_design(c, d, slx=0, sv=None, combo=False, w_lags=1, lag_q=True):
    """(X, labels, Yend, Q) of a (spatial lag / combo) GM model as documented: WX in X, WY endogenous, lagged instruments."""
    X, lab = design(c, d.x, d.nx, d.w, slx, vars_=sv)
    ye, q = d.yend, d.q
    if combo:
        wy = d.W @ d.y
        if d.yend is None:
            ye, q = wy, lags(c, d.w, d.x, slx + 1, slx + w_lags)
        else:
            base = d.x if slx == 0 else wpow(c, d.w, d.x, slx)
            lv = np.hstack((base, d.q)) if lag_q else base
            ye, q = np.hstack((d.yend, wy)), np.hstack((d.q, lags(c, d.w, lv, 1, w_lags)))
    return X, lab, ye, q


def well(X, ye=None, q=None, tol=1e6):
    """full-rank, reasonably conditioned problem."""
    if np.linalg.cond(X) > 1e4 or X.shape[0] <= X.shape[1] + 3:
        return False
    if ye is None:
        return True
    h, z = np.hstack((X, q)), np.hstack((X, ye))
    if np.linalg.cond(h) > 1e5:
        return False
    return np.linalg.cond(z.T @ h @ np.linalg.inv(h.T @ h) @ h.T @ z) < tol


def filt(W, lam, a):
    return a - lam * (W @ a)


def ols_ref(y, X):
    b = np.linalg.solve(X.T @ X, X.T @ y)
    return b, y - X @ b


def tsls_ref(y, Z, H):
    P = Z.T @ H @ np.linalg.inv(H.T @ H) @ H.T
    b = np.linalg.solve(P @ Z, P @ y)
    return b, y - Z @ b, np.linalg.inv(P @ Z)


def series(c, f, W):
    """call f; the power expansion may refuse a W that is not row-standardised (its documented precondition: row sums of rho W below one)."""
    try:
        return f()
    except Exception as e:
        c.assume("power expansion will not converge" not in str(e) or np.abs(W).sum(1).max() <= 1 + 1e-9)
        raise


def either(c, label, got, right, recorded, tol=1e-6):
    """the correct value, or the one of a recorded finding: anything else is a different violation."""
    if c.symbolic:
        c.eq(label, (got - right) * (got - recorded), right * 0)
        return
    g, a, b = (np.asarray(v, float) for v in (got, right, recorded))
    c.eq(label, got, right if np.abs(g - a).max() <= np.abs(g - b).max() else recorded, tol=tol)


def pick_case(c, s):
    """option strings are accepted in any case."""
    return s if c.symbolic else [s, s.upper(), s.title()][c.rng.randint(3)]


def lik_weights(c, name, n, r, any_sign, kind="row"):
    """weights for a log-Jacobian at the parameter(s) r. Concretely also weights whose LU factorisation pivots (diagonal elements of U of both
    signs), where log|det| still is the sum of the logs of their absolute values; any_sign=False keeps every eigenvalue of I - rW in the right
    half plane, which the dense and the Ord formulas presuppose."""
    if c.symbolic:
        return c.weights(name, n, kind)
    w = c.weights(name, n, "gen" if c.rng.rand() < 0.5 else "row")
    W = w.sparse.toarray()
    for t in np.atleast_1d(np.asarray(r, dtype=float)).ravel():
        if any_sign:
            c.assume(abs(np.linalg.det(np.eye(n) - t * W)) > 1e-6)
        else:
            c.assume((1 - t * np.linalg.eigvals(W)).real.min() > 1e-3)
    return w


def printed(c, text, label, *values):
    """the printed numbers after a label are the values, to the digits printed."""
    import re
    num = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"
    hits = re.findall(r"(?:^|  )" + re.escape(label) + r"\s*:?\s+((?:" + num + r"\s+){%d})" % len(values), text + "\n", flags=re.M)
    c.true("%s is printed" % label, len(hits) > 0)
    for h in hits:
        for tok, v in zip(h.split(), values):
            v = float(np.asarray(v, dtype=float).ravel()[0])
            mant, _, ex = tok.lower().partition("e")
            unit = 10.0 ** (int(ex or 0) - len(mant.partition(".")[2])) if tok not in ("nan", "inf", "-inf") else 0
            same = (tok == "nan" and v != v) or (tok.endswith("inf") and v in (np.inf, -np.inf)) or abs(float(tok) - v) <= 0.5001 * unit + 1e-5 * abs(v)
            c.true("%s is printed as it is" % label, bool(same), (tok, v))


def sections(c, o):
    """(estimated equation, its part of the summary); the whole summary for a single equation."""
    if not hasattr(o, "multi"):
        return [(o, o.summary)]
    parts = o.summary.partition("GLOBAL DIAGNOSTICS")[0].split("SUMMARY OF OUTPUT")[1:]
    c.same("one part of the summary per equation", len(parts), len(o.multi))
    out = []
    for m, t in zip(o.multi.values(), parts):
        nm = m.name_y[0] if isinstance(m.name_y, list) else m.name_y
        c.true("the parts of the summary follow the equations", nm in t, nm)
        out.append((m, t))
    return out


class Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


def passes_on(c, module, cls, base):
    """the constructor of cls hands every argument it shares with base to base's constructor (proof mode)."""
    import inspect
    m = c.mod(module)
    C, B = getattr(m, cls), getattr(m, base)
    a, b = (list(inspect.signature(q.__init__).parameters)[1:] for q in (C, B))
    got = []
    c.stub("%s:%s.__init__" % (module, base), lambda self, *q, **z: got.append((q, z)))
    given = {p: Mark(p) for p in a}
    C(**given)
    c.structure(len(got) == 1, "not one call of %s" % base)
    q, z = got[0]
    z = dict(z, **dict(zip(b, q)))
    for p in b:
        if p in a:
            c.same("argument " + p, z.get(p) is given[p], True)
    d = inspect.signature(B.__init__).parameters
    c.same("nothing else", sorted(p for p in z if p not in a and not (p in d and z[p] is d[p].default)), [])


# ------------------------------------------------------------------ public constructors, proof mode
SLX = [dict(slx=0, sv=None), dict(slx=1, sv=None), dict(slx=2, sv=None), dict(slx=1, sv=[True, False]), dict(slx=2, sv=[False, True])]


def constructor(c, module, cls, base, slx=0, sv=None, endog=0, combo=False, w_lags=1, lag_q=True, marks=(), tail=(), whole_w=False, raw=False, given=None,
                fixed=None, prep=None, post=None):
    """the public class hands its base class exactly the data and options asked for ([1, X, WX, ...], [Yend, WY], [Q, lags], W, every option), and
    what it publishes are the results of the base class; callees under their contracts: input checks (C21), base class, sp_att (C14), printing.
    module/base: where the class and its base class live; marks: options passed through; tail: names after the regressors; whole_w: base takes the W object;
    raw: base builds the lags itself; prep/post: further stubs and checks; fixed: {class option: (value, {base option: value})}."""
    import inspect
    np_ = c.np
    k = 2
    n = c.dim("n", 12)
    y, x, w = c.array("y", n, 1), c.array("x", n, k), c.weights("W", n, "row")
    nx = ["x0", "x1"]
    kw = dict(y=y, x=x, name_y="dep", name_x=list(nx), name_ds="ds", slx_lags=slx)
    if sv is not None:
        kw["slx_vars"] = list(sv)
    yend = q = None
    nend, nq = ["e%d" % j for j in range(endog)], ["q%d" % j for j in range(endog + 1)] if endog else []
    if endog:
        yend, q = c.array("yend", n, endog), c.array("q", n, endog + 1)
        kw.update(yend=yend, q=q, name_yend=list(nend), name_q=list(nq))
    W = w
    kw["w"] = w
    if combo:
        kw.update(w_lags=w_lags, lag_q=lag_q)
    mk = {m: Mark(m) for m in tuple(marks) + ("vm", "latex")}
    kw.update(mk)
    kw.update({a: v[0] for a, v in (fixed or {}).items()})
    kw.update(given or {})

    def one(nx_):
        return np_.hstack((np_.ones((n, 1)), nx_))

    c.stub("user_output:check_arrays", lambda *a: n)
    c.stub("user_output:check_y", lambda y_, n_, name=None: (y_, name))
    c.stub("user_output:check_weights", lambda w_, *a, **z: w_)
    c.stub("user_output:check_endog", lambda a, b: (a[0], a[1], b[0], b[1]))
    c.stub("user_output:check_constant", lambda x_, name=None, just_rem=False: (x_ if just_rem else one(x_), name, None))
    c.stub("user_output:check_robust", lambda *a: None)
    c.stub("user_output:check_spat_diag", lambda spat_diag, *a, **z: (spat_diag, None))
    outs, atts, got = [], [], []
    osig = inspect.signature(c.mod("output").__dict__["output"])

    def printed_(*a, **z):
        p = osig.bind(*a, **z).arguments
        outs.append((p["reg"], p.get("vm"), p.get("latex", False)))
    c.stub("output:output", printed_)
    for f in ("_spat_pseudo_r2", "_summary_iteration", "_nonspat_top", "_nonspat_mid", "_spat_diag_out", "_summary_vif", "_probit_out"):
        try:
            c.stub("output:" + f, lambda *a, **z: "")
        except KeyError:
            pass
    try:
        c.stub("output:_summary_impacts", lambda *a, **z: ({}, ""))
    except KeyError:
        pass
    for f in ("akaike", "schwarz"):
        c.stub("diagnostics:" + f, lambda reg=None: 0.0)
    pe, ep = c.array("PE", n, 1), c.array("EP", n, 1)

    def att(*a, **z):
        p = dict(zip(("w", "y", "predy", "w_y", "rho", "hard_bound"), a), **z)
        atts.append(p)
        return pe, ep, None
    c.stub("utils:sp_att", att)
    m = c.mod(module)
    bm, bc = base.split(":")
    B = getattr(c.mod(bm), bc)
    par = inspect.signature(B.__init__).parameters
    pos = list(par)[1:]
    R = type("R", (), {})()

    def init(self, *a, **z):
        z = dict(zip(pos, a), **z)
        got.append(z)
        X = z["x"]
        self._cache = {}
        self.y, self.x, self.n = z["y"], X, n
        cols = X.shape[1]
        ye = z.get("yend")
        if raw and combo:
            ye = np_.hstack((yend, c.wd(w) @ y)) if endog else c.wd(w) @ y
            cols = cols + slx * (k if sv is None else sv.count(True))
        if ye is not None:
            self.yend, self.q, self.h = ye, z.get("q"), X
            self.z = np_.hstack((X, ye))
            self.kstar = ye.shape[1]
            cols = cols + ye.shape[1]
        self.k = cols
        R.b = self.betas = c.array("b", cols + len([t for t in tail if t == "lambda" or (t == "rho" and not combo)]), 1)
        R.V = self.vm = c.array("V", cols, cols, symmetric=True)
        R.u = self.u = c.array("u", n, 1)
        R.p = self.predy = c.array("p", n, 1)
        self.rho = self.lam = self.betas[-1, 0]
        self.predy_e, self.e_pred, self.sig2, self.logll, self.iteration, self.iter_stop = pe, ep, c.scalar("s2"), c.scalar("ll"), 1, "x"
    c.stub("%s:%s.__init__" % (bm, bc), init)
    if prep:
        prep()
    try:
        o = getattr(m, cls)(**kw)
    except (AttributeError, KeyError, TypeError) as e:      # something of the base class this contract does not provide; the concrete contracts decide
        c.structure(False, "%s: %s" % (type(e).__name__, e))
    c.structure(len(got) == 1, "not one call of the base class")
    z = got[0]
    # what the base class must receive
    sel = list(range(k)) if sv is None else [i for i, v in enumerate(sv) if v]
    sub = x[:, sel]
    X, lab = one(x), ["CONSTANT"] + nx
    if slx:
        lab += ["W%s_%s" % ("" if p == 1 else str(p), nx[i]) for p in range(1, slx + 1) for i in sel]
        if not raw:
            X = np_.hstack((X, lags(c, w, sub, 1, slx)))
    Wy = c.wd(w) @ y
    ye, qq = yend, q
    if combo and not raw:
        if endog:
            b_ = x if slx == 0 else wpow(c, w, x, slx)
            ye, qq = np_.hstack((yend, Wy)), np_.hstack((q, lags(c, w, np_.hstack((b_, q)) if lag_q else b_, 1, w_lags)))
        else:
            ye, qq = Wy, lags(c, w, x, slx + 1, slx + w_lags)
    c.eq("y handed over", z["y"], y)
    c.eq("regressors handed over", z["x"], X)
    for nm, v in (("yend", ye), ("q", qq)):
        if nm not in par:
            continue
        if v is None:
            c.true("no %s handed over" % nm, z.get(nm) is None)
        elif nm == "q" and sv is not None and not raw:
            c.true("instruments handed over", z.get(nm) is not None)      # with a subset: C03.set_endog_subset
        else:
            c.eq(("endogenous variables" if nm == "yend" else "instruments") + " handed over", z[nm], v)
    if "w" in par:
        c.eq("weights handed over", c.dense(z["w"].sparse if whole_w else z["w"]), c.dense(w.sparse))
    for p in marks:
        if p in par:
            c.same("option %s handed over" % p, z.get(p) is kw[p], True)
    for p, want in (("w_lags", w_lags), ("lag_q", lag_q), ("slx_lags", slx), ("slx_vars", "All" if sv is None else list(sv))):
        if p in par and (raw or p == "slx_lags"):
            c.same("option %s handed over" % p, z.get(p, par[p].default), want)
    for a, (v, d) in (fixed or {}).items():
        for p, want in d.items():
            c.same("option %s handed over" % p, z.get(p, par[p].default), want)
    # what is published
    c.eq("coefficients are those of the base class", o.betas, R.b)
    c.eq("covariance is that of the base class", o.vm, R.V)
    c.eq("residuals are those of the base class", o.u, R.u)
    c.eq("predicted values are those of the base class", o.predy, R.p)
    names = lab + nend + (["W_dep"] if "rho" in tail else []) + (["lambda"] if "lambda" in tail else [])
    c.same("one name per coefficient, in order", [str(v) for v in o.output["var_names"]], names)
    t = list(o.output["var_type"])
    c.same("type of every coefficient", (t[0] in ("o", "x"), t[-len(tail):] if tail else [], t[1 + k + slx * len(sel):len(t) - len(tail)]), (True, list(tail), ["yend"] * endog))
    if combo:
        c.structure(len(atts) == 1, "not one call of sp_att")
        p = atts[0]
        c.eq("reduced form: weights", c.dense(getattr(p["w"], "sparse", p["w"])), c.dense(w.sparse))
        c.eq("reduced form: y", p["y"], y)
        c.eq("reduced form: predicted values", p["predy"], R.p)
        c.eq("reduced form: Wy", p["w_y"], Wy)
        c.eq("reduced form: rho", np_.sum(p["rho"]), R.b[-2 if "lambda" in tail else -1, 0])
        if "hard_bound" in mk:
            c.true("reduced form: hard_bound", p.get("hard_bound") is mk["hard_bound"])
        c.eq("predy_e published", o.predy_e, pe)
        c.eq("e_pred published", o.e_pred, ep)
        c.eq("rho published", np_.sum(o.rho), R.b[-2 if "lambda" in tail else -1, 0])
    if post:
        post(o)
    c.same("printed once", len(outs), 1)
    c.true("printed: this model, options vm and latex", outs[0][0] is o and outs[0][1] is mk["vm"] and outs[0][2] is mk["latex"])
    c.frame("inputs unchanged", *[a for a in (y, x, yend, q) if a is not None])


GMM = {"kp98": ("error_sp", ""), "het": ("error_sp_het", "_Het"), "hom": ("error_sp_hom", "_Hom")}


def gmm_choice(c, estimator, endog, add_wy, regimes=False, options=()):
    """GMM_Error(_Regimes): estimator, endogenous variables and add_wy select the class; every argument, whatever its value, reaches it (proof mode)."""
    import inspect
    tail = "_Regimes" if regimes else ""
    m = c.mod("error_sp" + tail.lower())
    F = getattr(m, "GMM_Error" + tail)
    par = [p for p in inspect.signature(F.__init__).parameters if p not in ("self", "kwargs", "estimator", "add_wy", "spat_diag", "regimes" if not regimes else "")]
    kw = {p: Mark(p) for p in par}
    if not endog:
        kw.update(yend=None, q=None, name_yend=None, name_q=None)
    kw.update({p: Mark(p) for p in options})
    sigs, got = {}, []
    for mod, sx in GMM.values():
        for b in ("GM_Error", "GM_Endog_Error", "GM_Combo"):
            nm = b + sx + tail
            sigs[nm] = inspect.signature(getattr(c.mod(mod + tail.lower()), nm).__init__)

            def init(self, *a, __n=nm, **z):
                got.append((__n, self, sigs[__n].bind(self, *a, **z).arguments))
            c.stub("%s:%s.__init__" % (mod + tail.lower(), nm), init)
    o = F(estimator=estimator, add_wy=add_wy, **kw)
    c.structure(len(got) == 1, "not one call of an estimator class")
    nm, self_, z = got[0]
    z = dict(z, **z.get("kwargs", {}))
    want = ("GM_Combo" if add_wy else "GM_Endog_Error" if endog else "GM_Error") + GMM[estimator][1] + tail
    c.same("class", nm, want)
    c.true("this object", self_ is o)
    for p, q in sigs[want].parameters.items():
        if p in kw and (p != "regime_lag_sep" or add_wy) and (endog or add_wy or p not in ("yend", "q", "name_yend", "name_q")):
            c.true("argument " + p, z.get(p, q.default) is kw[p])
    known = set(kw) | {"self", "kwargs"}
    c.same("nothing else", sorted(p for p in z if p not in known and z[p] is not sigs[want].parameters[p].default), [])
