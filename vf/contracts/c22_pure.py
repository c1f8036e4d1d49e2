"""C22: estimation never modifies its inputs and is repeatable."""
import copy

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo


# ------------------------------------------------------------------ what the caller can see of an argument
def snap(o):
    import pandas as pd
    import scipy.sparse as SP
    from libpysal import graph, weights
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.copy() if o.dtype != object else [snap(v) for v in o.ravel()], o.flags.writeable)
    if isinstance(o, pd.DataFrame):
        return ("frame", list(o.columns), list(o.index), o.to_numpy(copy=True))
    if isinstance(o, pd.Series):
        return ("series", o.name, list(o.index), o.to_numpy(copy=True))
    if SP.issparse(o):
        return ("sparse", o.format, o.shape, o.toarray())
    if isinstance(o, graph.Graph):
        return ("graph", list(o.adjacency.index), o.adjacency.to_numpy(copy=True), str(o.transformation))
    if isinstance(o, weights.W):
        return ("W", o.n, list(o.id_order), o.transform, {k: list(v) for k, v in o.neighbors.items()}, {k: [float(x) for x in v] for k, v in o.weights.items()},
                o.sparse.toarray())
    if isinstance(o, dict):
        return ("dict", list(o), [snap(v) for v in o.values()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    return ("value", o)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else bool(np.all(a == b)))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b) or a is b
    except Exception:
        return a is b


def unchanged(c, kw, before, label=""):
    for k in kw:
        c.true("%sargument %s unchanged" % (label, k), same(snap(kw[k]), before[k]))


SKIP = {"w", "summary", "__summary", "output", "title", "time", "multi"}


def flat(v, depth=0):
    """numbers of a result, nested in lists, dictionaries and small objects."""
    if v is None or isinstance(v, (str, bool, np.bool_)) or depth > 3:
        return [v] if isinstance(v, (str, bool, np.bool_)) or v is None else []
    if isinstance(v, (int, float, complex, np.number)):
        return [float(np.real(v))]
    if isinstance(v, np.ndarray):
        return [float(np.real(x)) if isinstance(x, (int, float, complex, np.number)) else str(x) for x in v.ravel()]
    if hasattr(v, "toarray"):
        return flat(v.toarray())
    if isinstance(v, dict):
        return [x for k in v for x in [str(k)] + flat(v[k], depth + 1)]
    if isinstance(v, (list, tuple)):
        return [x for q in v for x in flat(q, depth + 1)]
    if hasattr(v, "columns"):
        return list(map(str, v.columns)) + flat(v.to_numpy(dtype=object))
    return []


def props(o):
    return sorted({p for k in type(o).__mro__ for p, v in vars(k).items() if isinstance(v, property)})


def public(o):
    return sorted(k for k in vars(o) if not k.startswith("_") and k not in SKIP)


def numbers_equal(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if isinstance(p, float) and isinstance(q, float):
            if not (abs(p - q) <= tol * max(1, abs(p), abs(q)) or (p != p and q != q) or p == q):
                return False
        elif p != q:
            return False
    return True


def lazy(o, order):
    out = {}
    for p in order:
        try:
            out[p] = flat(getattr(o, p))
        except Exception as e:
            out[p] = ["refused", type(e).__name__]
    return out


def compare(c, a, b, label):
    pa, pb = public(a), public(b)
    c.same(label + ": same attributes", pb, pa)
    for k in pa:
        if k in pb:
            c.true("%s: attribute %s" % (label, k), numbers_equal(flat(getattr(a, k)), flat(getattr(b, k))))


def run_twice(c, kind, kw, build):
    before = {k: snap(v) for k, v in kw.items()}
    try:
        a = build()
    except np.linalg.LinAlgError:
        c.assume(False)
    unchanged(c, kw, before)
    first = copy.deepcopy({k: flat(getattr(a, k)) for k in public(a)})
    b = build()
    unchanged(c, kw, before, "second call: ")
    compare(c, a, b, "called twice")
    for k in first:
        c.true("an earlier result is not changed by a later call: " + k, numbers_equal(first[k], flat(getattr(a, k))))
    # lazily computed attributes, in opposite and random orders
    ps = props(a)
    la = lazy(a, ps)
    rest = list(reversed(ps))
    if zoo.flip(c):
        c.rng.shuffle(rest)
    lb = lazy(b, rest)
    for p in ps:
        c.true("attribute %s does not depend on the order of reading" % p, numbers_equal(la[p], lb[p]))
    lb = lazy(b, ps)
    for p in ps:
        c.true("attribute %s is the same when read again" % p, numbers_equal(la[p], lb[p]))
    for k in first:
        c.true("reading lazily computed attributes changes nothing: " + k, numbers_equal(first[k], flat(getattr(a, k))))
    unchanged(c, kw, before, "after reading attributes: ")
    return a


@contract("C22", ["user_output:check_y", "user_output:check_endog", "user_output:check_constant", "user_output:check_weights"],
          cases=[dict(kind=k) for k in zoo.CROSS + zoo.REGIMES], sym=False, draws=3, timeout=120, bounded="random data n<=80, random options and containers")
def estimators(c, kind):
    import pandas as pd
    kind, d, kw = zoo.cross_args(c, kind)
    if zoo.flip(c):
        p = dict(y=pd.Series(kw["y"].ravel(), name="dep"), x=pd.DataFrame(kw["x"], columns=kw["name_x"]))
        for nm in ("yend", "q"):
            if nm in kw:
                p[nm] = pd.DataFrame(kw[nm], columns=kw["name_" + nm])
        kw.update(p)
        if "regimes" in kw:
            kw["regimes"] = pd.Series(kw["regimes"])
    elif zoo.flip(c):
        kw["y"] = kw["y"].ravel()
    else:
        kw["x"] = np.asfortranarray(kw["x"])
    if kw.get("w") is not None and zoo.flip(c, 0.3) and not kw.get("regime_err_sep") and not kw.get("regime_lag_sep"):
        if kind != "ML_Error" and kind != "ML_Lag" and "Regimes" not in kind:
            kw["w"] = kw["w"].sparse.toarray()
    run_twice(c, kind, kw, lambda: zoo.build(c, kind, kw))
    c.frame_all("inputs unchanged")


@contract("C22", ["sur:SUR.__init__", "sur:ThreeSLS.__init__", "sur_error:SURerrorGM.__init__", "sur_error:SURerrorML.__init__", "sur_lag:SURlagIV.__init__"],
          cases=[dict(kind=k) for k in zoo.SYSTEMS], sym=False, draws=4, timeout=120, bounded="random systems n<=50")
def systems(c, kind):
    kind, d, kw = zoo.system_args(c, kind)
    if zoo.flip(c):
        kw["regimes"] = zoo.regimes_of(c, d.n)
        if kind == "SURerrorML":
            kw["regimes"] = ["a" if i < d.n // 2 else "b" for i in range(d.n)]
    run_twice(c, kind, kw, lambda: zoo.build(c, kind, kw))
    c.frame_all("inputs unchanged")


@contract("C22", ["panel_utils:check_panel"], cases=[dict(kind=k) for k in zoo.PANELS + zoo.PANELS_NEW], sym=False, draws=3, timeout=120, bounded="random panels n<=30, T<=5")
def panels(c, kind):
    import pandas as pd
    kind, d, kw = zoo.panel_args(c, kind)
    if zoo.flip(c) and kind != "GM_KKP":
        kw["y"] = pd.DataFrame(kw["y"], columns=kw.pop("name_y"))
        kw["x"] = pd.DataFrame(kw["x"], columns=kw.pop("name_x"))
    run_twice(c, kind, kw, lambda: zoo.build(c, kind, kw))
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ proofs: no write through any alias, same value twice, order of reading
class _O:
    pass


def leaves(v):
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for q in v for x in leaves(q)]
    return [v]


def D(c, g, name, n, k, pos=False):
    return {r: c.array("%s%d" % (name, r), n, k) for r in range(g)}


def _spec(c, name):
    """(callable, arguments) of one function of the library on arbitrary data."""
    n, k = c.dim("n", 12, 30), c.dim("k", 1, 3)
    A = c.array
    y, u, x = A("y", n, 1), A("u", n, 1), A("x", n, k)
    f = c.func(name)
    short = name.split(":")[1]
    if short in ("get_lags", "get_lags_split"):
        w = c.weights("W", n, "row")
        return f, (w, x, 2) if short == "get_lags" else (w, x, 3, 1)
    if short == "set_endog":
        w = c.weights("W", n, "row")
        return f, (y, x, w, A("yend", n, 1), A("q", n, 2), 2, True)
    if short == "set_endog_sparse":
        w = c.weights("W", n, "row")
        return f, (y, x, w.sparse, A("yend", n, 1), A("q", n, 2), 2, True)
    if short == "get_spFilter":
        w = c.weights("W", n, "row")
        return f, (w.sparse, c.scalar("l", -0.9, 0.9), y)
    if short in ("get_A1_het", "get_A1_hom", "get_A2_hom"):
        w = c.weights("W", n, "row")
        return f, (w.sparse,)
    if short == "_moments2eqs":
        w = c.weights("W", n, "row")
        return f, (c.sparse(A("A1", n, n)), w.sparse, u)
    if short == "get_psi_sigma":
        w = c.weights("W", n, "row")
        return f, (w.sparse, u, c.scalar("l", -0.9, 0.9))
    if short == "get_vc_het":
        w = c.weights("W", n, "row")
        E = c.sparse(c.np.diag(A("e2", n)))
        return f, (w.sparse, c.sparse(A("A1", n, n)), E)
    if short == "robust_vm":
        o = _O()
        o.n, o.k, o.x, o.u, o.xtxi = n, k, x, u, A("xtxi", k, k)
        return f, (o,)
    if short == "spdot":
        return f, (x.T, c.sparse(A("S", n, n)))
    if short in ("spmultiply", "sphstack"):
        return f, (x, c.sparse(A("S", n, k))) if short == "sphstack" else (x, A("z", n, k))
    if short == "spbroadcast":
        return f, (x, y)
    if short in ("se_betas", "akaike", "schwarz", "r2", "ar2", "log_likelihood", "t_stat", "f_stat"):
        o = _O()
        o.n, o.k, o.x, o.y, o.u, o.betas = n, k, x, y, u, A("b", k, 1)
        o.utu, o.vm, o.mean_y, o.predy = c.scalar("utu", 0.5, 9), c.array("V", k, k, positive=True), c.scalar("my"), A("py", n, 1)
        o.aic = o.schwarz = None
        o.logll, o.r2, o.sig2n = c.scalar("ll"), c.scalar("rr"), c.scalar("s2", 0.5, 2)
        return f, (o,)
    g = 2
    if short in ("sur_crossprod",):
        return f, (D(c, g, "X", n, k), D(c, g, "Y", n, 1))
    if short == "sur_est":
        K_ = c.np.array([[k]] * g) if c.symbolic else np.array([[k]] * g)
        bXX = {(r, t): A("XX%d%d" % (r, t), k, k) for t in range(g) for r in range(g)}
        bXy = {(r, t): A("Xy%d%d" % (r, t), k, 1) for t in range(g) for r in range(g)}
        return f, (bXX, bXy, A("E", n, g), K_)
    if short in ("sur_resids", "sur_predict"):
        return f, (D(c, g, "Y", n, 1), D(c, g, "X", n, k), D(c, g, "B", k, 1))
    if short == "filter_dict":
        return f, (c.array("lam", g, 1), D(c, g, "X", n, k), D(c, g, "WX", n, k))
    if short == "sur_dict2mat":
        return f, (D(c, g, "X", n, 1),)
    if short == "sur_corr":
        return f, (c.array("S", 2, 2, symmetric=True, positive=True),)
    if short == "demean_panel":
        return f, (c.array("yy", n * 2, 1), n, 2)
    if short in ("dgp_ols", "dgp_slx", "dgp_sperror", "dgp_lag"):
        w = c.weights("W", n, "row")
        if c.symbolic:
            c.stub("utils:inverse_prod", lambda w, d, s, **kw: c.inv(c.eye(n) - s * c.wd(w)) @ d)
        return f, {"dgp_ols": (u, y), "dgp_slx": (u, y, A("g", n, 1)), "dgp_sperror": (u, y, w, 0.5, "ma"), "dgp_lag": (u, y, w)}[short]
    if short in ("make_wx", "make_xb", "make_wxg", "make_heterror"):
        w = c.weights("W", n, "row")
        return f, {"make_wx": (x, w, 2), "make_xb": (x, [1.0] + [0.5] * 1), "make_wxg": (A("z", n, 2), [0.5, 2.0]), "make_heterror": (u, y)}[short]
    if short == "nlmod":
        return f, ()
    raise KeyError(name)


PURE = ["utils:get_lags", "utils:get_lags_split", "utils:set_endog", "utils:set_endog_sparse", "utils:get_spFilter", "utils:get_A1_het", "utils:get_A1_hom",
        "utils:get_A2_hom", "utils:_moments2eqs", "error_sp_het:get_psi_sigma", "error_sp_het:get_vc_het", "robust:robust_vm", "sputils:spdot",
        "sputils:spmultiply", "sputils:sphstack", "sputils:spbroadcast", "diagnostics:se_betas", "diagnostics:akaike", "diagnostics:schwarz", "diagnostics:r2",
        "diagnostics:log_likelihood", "sur_utils:sur_crossprod", "sur_utils:sur_est", "sur_utils:sur_resids",
        "sur_utils:sur_predict", "sur_utils:filter_dict", "sur_utils:sur_dict2mat", "sur_utils:sur_corr", "panel_utils:demean_panel", "dgp:dgp_ols",
        "dgp:dgp_slx", "dgp:dgp_sperror", "dgp:dgp_lag", "dgp:make_wx", "dgp:make_wxg", "dgp:make_heterror"]


def inputs_of(v):
    if isinstance(v, (list, tuple)):
        return [x for q in v for x in inputs_of(q)]
    if isinstance(v, dict):
        return [x for q in v.values() for x in inputs_of(q)]
    if isinstance(v, _O):
        return inputs_of(list(vars(v).values()))
    return [v] if hasattr(v, "shape") and hasattr(v, "dtype") else []


@contract("C22", PURE, cases=[dict(name=p) for p in PURE], draws=2, note="functions: no write to any argument through any alias, same value when called again")
def functions(c, name):
    f, args = _spec(c, name)
    ins = inputs_of(args)
    if not c.symbolic:
        before = [snap(a) for a in ins]
        objs = [dict(vars(a)) for a in args if isinstance(a, _O)]
    r1 = f(*args)
    if not c.symbolic:
        first = copy.deepcopy(flat(r1))
    r2 = f(*args)
    if c.symbolic:
        l1, l2 = leaves(r1), leaves(r2)
        c.same("same structure", len(l2), len(l1))
        for a, b in zip(l1, l2):
            if isinstance(a, (str, bool, type(None))):
                c.same("same value again", b, a)
            else:
                c.eq("same value again", b, a)
        c.frame("arguments unchanged", *ins)
    else:
        c.true("same value again", numbers_equal(first, flat(r2)))
        c.true("an earlier result is not changed by a later call", numbers_equal(first, flat(r1)))
        for a, b in zip(ins, before):
            c.true("arguments unchanged", same(snap(a), b))
    c.frame_all("arguments unchanged")


ORDERS = [dict(cl="ols:BaseOLS", robust=None), dict(cl="ols:BaseOLS", robust="white"), dict(cl="twosls:BaseTSLS", robust=None), dict(cl="twosls:BaseTSLS", robust="white")]


@contract("C22", ["utils:RegressionPropsY.mean_y", "utils:RegressionPropsY.std_y", "utils:RegressionPropsVM.utu", "utils:RegressionPropsVM.sig2n",
                  "utils:RegressionPropsVM.sig2n_k", "utils:RegressionPropsVM.vm", "twosls:BaseTSLS.pfora1a2", "twosls:BaseTSLS.vm"],
          cases=ORDERS, draws=4)
def lazy_orders(c, cl, robust):
    """every order of reading the lazily computed attributes gives the same values; reading again gives them again."""
    n, k = c.dim("n", 14, 30), c.dim("k", 1, 3)
    y, x = c.array("y", n, 1), c.array("x", n, k)
    if cl.endswith("OLS"):
        a = (y, x, robust)
        if not c.symbolic:
            c.assume(K.well(x))
    else:
        ye, q = c.array("yend", n, 1), c.array("q", n, 2)
        if not c.symbolic:
            c.assume(K.well(x, ye, q))
        a = (y, x, ye, q, None, robust)
    ps = ["mean_y", "std_y", "utu", "sig2n", "sig2n_k", "vm"] + (["pfora1a2"] if "TSLS" in cl else [])
    o = c.func(cl)(*a)
    ref = {p: getattr(o, p) for p in ps}
    orders = [ps[::-1]] + [[p] + [q for q in ps if q != p] for p in ps[1:]]
    for od in orders:
        b = c.func(cl)(*a)
        for p in od:
            c.eq("%s read in another order" % p, getattr(b, p), ref[p])
        for p in ps:
            c.eq("%s read again" % p, getattr(b, p), ref[p])
    c.frame_all("arguments unchanged")


@contract("C22", ["utils:RegressionPropsY.mean_y", "utils:RegressionPropsY.std_y", "utils:RegressionPropsVM.utu", "utils:RegressionPropsVM.sig2n",
                  "utils:RegressionPropsVM.sig2n_k", "utils:RegressionPropsVM.vm"],
          cases=[dict(first=p) for p in ("mean_y", "std_y", "utu", "sig2n", "sig2n_k", "vm")], draws=2)
def lazy_bare(c, first):
    """an estimator that has stored nothing yet: each lazily computed attribute can be the first one read, and one that is assigned is kept."""
    n, k = c.dim("n", 14, 30), c.dim("k", 1, 3)
    y, u, xtxi = c.array("y", n, 1), c.array("u", n, 1), c.array("Q", k, k)
    s2 = c.scalar("s2", 0.5, 2)
    Y, V = c.func("utils:RegressionPropsY"), c.func("utils:RegressionPropsVM")

    def new():
        o = type("Bare", (Y, V), {})()
        o.y, o.u, o.n, o.k, o.xtxi, o.sig2 = y, u, n, k, xtxi, s2
        return o
    m, uu = y.sum() / n, (u.T @ u)[0, 0]
    o = new()
    try:
        got = {first: getattr(o, first)}
    except AttributeError as e:
        c.true("%s can be read first" % first, False, str(e))
    for p in ("mean_y", "std_y", "utu", "sig2n", "sig2n_k", "vm"):
        got.setdefault(p, getattr(o, p))
    c.eq("mean_y", got["mean_y"], m)
    c.eq("std_y^2", got["std_y"] ** 2, ((y - m) ** 2).sum() / (n - 1))
    c.eq("utu", got["utu"], uu)
    c.eq("sig2n", got["sig2n"], uu / n)
    c.eq("sig2n_k", got["sig2n_k"], uu / (n - k))
    c.eq("vm", got["vm"], xtxi * s2)
    v = c.array("V", k, k) if first == "vm" else c.scalar("v", 1, 3)
    for o in (new(), o):
        setattr(o, first, v)
        c.eq("an assigned %s is kept" % first, getattr(o, first), v)
    c.frame_all("arguments unchanged")


# ------------------------------------------------------------------ diagnostics, generators, searches and clustering
def _ols(c, d, nonspat=False):
    import spreg
    with zoo.quiet():
        return spreg.OLS(d.y, d.x, w=d.w, nonspat_diag=nonspat)


def tool(c, name):
    """(inputs, thunk) of one public tool; the thunk is called twice, the inputs are compared before, between and after."""
    import spreg
    from spreg import diagnostics as dg, diagnostics_panel as dp, diagnostics_probit as dpr, diagnostics_sp as ds, diagnostics_tsls as dt, regimes as rg, sputils as su
    from spreg import utils as ut
    pick, flip = zoo.pick, zoo.flip
    if name in ("f_stat", "t_stat", "r2", "ar2", "se_betas", "log_likelihood", "akaike", "schwarz", "condition_index", "jarque_bera", "breusch_pagan",
                "koenker_bassett", "white", "vif"):
        d = K.spdata(c, k=2)
        m = _ols(c, d)
        return dict(y=d.y, x=d.x, w=d.w, reg=[v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)]), lambda: getattr(dg, name)(m)
    if name in ("likratiotest",):
        import spreg
        d = K.spdata(c, k=2)
        with zoo.quiet():
            a, b = spreg.OLS(d.y, d.x), spreg.ML_Lag(d.y, d.x, d.w)
        return dict(y=d.y, x=d.x, w=d.w), lambda: dg.likratiotest(a, b)
    if name in ("dwh", "tsls_t_stat", "pr2_aspatial"):
        d = K.spdata(c, k=2, endog=1)
        with zoo.quiet():
            m = spreg.TSLS(d.y, d.x, d.yend, d.q)
        f = dict(dwh=dg.dwh, tsls_t_stat=lambda m: dt.t_stat(m, True), pr2_aspatial=dt.pr2_aspatial)[name]
        return dict(y=d.y, x=d.x, yend=d.yend, q=d.q, reg=[v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)]), lambda: f(m)
    if name in ("LMtests", "MoranRes", "lm_wx", "lm_spdurbin"):
        d = K.spdata(c, k=2)
        m = _ols(c, d)
        f = dict(LMtests=lambda: vars(ds.LMtests(m, d.w)), MoranRes=lambda: vars(ds.MoranRes(m, d.w, z=True)), lm_wx=lambda: ds.lm_wx(m, d.w),
                 lm_spdurbin=lambda: ds.lm_spdurbin(m, d.w))[name]
        return dict(y=d.y, x=d.x, w=d.w, reg=[v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)]), f
    if name in ("AKtest", "pr2_spatial", "comfac_test"):
        d = K.spdata(c, k=2, endog=1)
        with zoo.quiet():
            m = spreg.GM_Lag(d.y, d.x, yend=d.yend, q=d.q, w=d.w)
            t = spreg.TSLS(d.y, d.x, d.yend, d.q)
        f = dict(AKtest=lambda: [vars(ds.AKtest(t, d.w)), vars(ds.AKtest(m, d.w, case="gen"))], pr2_spatial=lambda: dt.pr2_spatial(m),
                 comfac_test=lambda: ds.comfac_test(m.rho, m.betas[1:3], m.betas[1:3], m.vm[:5, :5]))[name]
        if name == "comfac_test":
            b, g, v = c.rng.randn(2, 1), c.rng.randn(2, 1), np.cov(c.rng.randn(5, 40))
            return dict(b=b, g=g, v=v), lambda: ds.comfac_test(0.4, b, g, v)
        return dict(y=d.y, x=d.x, yend=d.yend, q=d.q, w=d.w), f
    if name in ("pred_table", "probit_fit", "probit_lrtest", "mcfad_rho", "probit_ape", "sp_tests", "moran_KP"):
        kind, d, kw = zoo.cross_args(c, "Probit")
        m = zoo.build(c, kind, kw)
        ins = dict(kw, reg=[v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)])
        if name == "moran_KP":
            u, s = c.rng.randn(d.n, 1), c.rng.uniform(0.5, 2, (d.n, 1))
            return dict(w=d.w, u=u, s=s), lambda: dpr.moran_KP(d.w, u, s)
        return ins, lambda: getattr(dpr, name)(m)
    if name in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror"):
        kind, d, kw = zoo.panel_args(c, "Panel_FE_Lag")
        return kw, lambda: getattr(dp, name)(kw["y"], kw["x"], kw["w"])
    if name == "panel_Hausman":
        kind, d, kw = zoo.panel_args(c, "Panel_FE_Lag")
        a, b = zoo.build(c, "Panel_FE_Lag", kw), zoo.build(c, "Panel_RE_Lag", kw)
        return kw, lambda: dp.panel_Hausman(a, b)
    if name == "make_x":
        n, mu, va = c.dim("n", 10, 40), [0.5, 1.0], [1.0, 2.0]
        s, me = int(c.rng.randint(1 << 30)), pick(c, "uniform", "normal", "bivnormal")
        return dict(mu=mu, varu=va), lambda: [spreg.dgp.make_x(np.random.default_rng(s), n, mu=mu, varu=va, cor=0.3, method=me),
                                             spreg.dgp.make_x(np.random.default_rng(s), n)]
    if name == "make_error":
        n, s = c.dim("n", 10, 40), int(c.rng.randint(1 << 30))
        me = pick(c, "normal", "laplace", "cauchy", "lognormal")
        return {}, lambda: spreg.dgp.make_error(np.random.default_rng(s), n, 0, 1, me)
    if name == "make_vmult":
        n, s, lo, hi = c.dim("n", 20, 40), int(c.rng.randint(1 << 30)), [1.0], [4.0]
        me = pick(c, "linear", "uniform")
        return dict(lo=lo, hi=hi), lambda: [spreg.dgp.make_vmult(n, method=me, vlow=lo, vup=hi, rng=np.random.default_rng(s)),
                                           spreg.dgp.make_vmult(n, method=me, rng=np.random.default_rng(s))]
    if name in ("dgp_errproc", "dgp_slxerror", "dgp_spdurbin", "dgp_lagerr", "dgp_gns", "dgp_mess", "dgp_lag", "dgp_sperror", "dgp_probit", "make_bin"):
        d = K.spdata(c, k=1)
        u, xb, g = c.rng.randn(d.n, 1), c.rng.randn(d.n, 1), c.rng.randn(d.n, 1)
        im, mo, yb = pick(c, "power_exp", "true_inv"), pick(c, "sar", "ma"), flip(c)
        G = spreg.dgp
        f = dict(dgp_errproc=lambda: G.dgp_errproc(u, d.w, 0.4, mo, im), dgp_slxerror=lambda: G.dgp_slxerror(u, xb, g, d.w, 0.4, mo, im, yb),
                 dgp_spdurbin=lambda: G.dgp_spdurbin(u, xb, g, d.w, 0.4, im, yb), dgp_lagerr=lambda: G.dgp_lagerr(u, xb, d.w, 0.4, 0.3, mo, im, yb),
                 dgp_gns=lambda: G.dgp_gns(u, xb, g, d.w, 0.4, 0.3, mo, im, yb), dgp_mess=lambda: G.dgp_mess(u, xb, d.w, 0.4),
                 dgp_lag=lambda: G.dgp_lag(u, xb, d.w, 0.4, im, yb), dgp_sperror=lambda: G.dgp_sperror(u, xb, d.w, 0.4, mo, im, yb),
                 dgp_probit=lambda: G.dgp_probit(u, xb), make_bin=lambda: G.make_bin(xb))[name]
        return dict(u=u, xb=xb, wxg=g, w=d.w), f
    if name in ("i_multipliers", "spmultiplier", "inverse_prod", "power_expansion", "lag_spatial"):
        d = K.spdata(c, k=1)
        mod, im = pick(c, "lag", "slx", "kernel"), pick(c, "simple", "full", "power")
        W = d.w.sparse.toarray()
        f = dict(i_multipliers=lambda: [su.i_multipliers(d.w, 0.4, mod), su.i_multipliers(W, 0.4, mod), su.i_multipliers(d.w.sparse, 0.4, pick_sp)],
                 spmultiplier=lambda: su.spmultiplier(d.w, 0.4, im), inverse_prod=lambda: [ut.inverse_prod(d.w, d.y, 0.4, inv_method=i) for i in ("true_inv", "power_exp")],
                 power_expansion=lambda: ut.power_expansion(d.w, d.y, 0.4), lag_spatial=lambda: ut.lag_spatial(d.w, d.y))[name]
        pick_sp = pick(c, "power", "exponential")
        return dict(w=d.w, W=W, y=d.y), f
    if name in ("w_regime", "w_regimes", "w_regimes_union", "x2xsp", "regimeX_setup", "set_name_x_regimes", "check_cols2regi", "Regimes_Frame", "buildR", "buildR1var",
                "check_const_regi", "_get_weighted_var"):
        n = c.dim("n", 30, 60)
        regimes = zoo.regimes_of(c, n)
        rs = sorted(set(regimes))
        w = zoo.regime_w(c, n, regimes)
        x = c.rng.randn(n, 2)
        cols, names = [True, False], ["a", "b"]
        ids = {r: [i for i in range(n) if regimes[i] == r] for r in rs}
        o = _O()
        o.regimes_set = rs
        def frame():
            class F(rg.Regimes_Frame):
                def __init__(s):
                    s.r = rg.Regimes_Frame.__init__(s, x, regimes, cons, cols2, list(names))
            a = F()
            return [a.r[0], a.r[1], a.r[2], a.kr, a.kf, a.nr]
        cons, cols2 = pick(c, False, "one", "many"), pick(c, "all", cols)
        wd = {r: rg.w_regime(w, ids[r], r)[0] for r in rs}
        f = dict(w_regime=lambda: [flatw(rg.w_regime(w, ids[r], r)[0]) for r in rs], w_regimes=lambda: [flatw(v) for v in rg.w_regimes(w, regimes, rs)[0].values()],
                 w_regimes_union=lambda: flatw(rg.w_regimes_union(w, wd, rs)), x2xsp=lambda: rg.x2xsp(x, regimes, rs),
                 regimeX_setup=lambda: rg.regimeX_setup(x, regimes, cols, rs), set_name_x_regimes=lambda: rg.set_name_x_regimes(list(names), False, cols, rs, ["x", "x"]),
                 check_cols2regi=lambda: rg.check_cols2regi("many", cols, x), Regimes_Frame=frame, buildR=lambda: rg.buildR(2, 1, 3),
                 buildR1var=lambda: rg.buildR1var(1, 2, 1, 0, 3), check_const_regi=lambda: rg.check_const_regi(o, x, names, ids),
                 _get_weighted_var=lambda: rg._get_weighted_var(regimes, rs, True, x[:, :1], x[:, 1:], x))[name]
        return dict(w=w, x=x, cols=cols, names=names, regimes=regimes, rs=rs, ids=ids, wd={r: wd[r].sparse for r in rs}), f
    if name in ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"):
        d = K.spdata(c, n=c.dim("n", 50, 80), k=2)
        nx = ["a", "b"]
        al = pick(c, 0.01, 0.05, 0.3)
        def f():
            r = getattr(spreg.spsearch, name)(d.y, d.x, d.w, p_value=al, name_x=nx, mprint=False)
            return [r[0]] + ([] if r[1] is False else [flat(r[1].betas), flat(r[1].vm)])
        return dict(y=d.y, x=d.x, w=d.w, nx=nx), f
    if name == "NSLX":
        n = c.dim("n", 30, 50)
        co, x = c.rng.uniform(0, 10, (n, 2)), c.rng.randn(n, 2)
        y = 1 + x.sum(1, keepdims=True) + c.rng.randn(n, 1)
        pr, sl, nx = [(6, np.inf, pick(c, "exponential", "power"))], pick(c, "All", [True, False]), ["a", "b"]
        def f():
            m = spreg.NSLX(y, x, co, params=pr, slx_vars=sl, name_x=nx)
            return [m.betas, m.vm, m.u, m.name_x]
        return dict(y=y, x=x, coords=co, params=pr, slx=sl, nx=nx), f
    if name == "Skater_reg":
        m = int(c.rng.randint(4, 6))
        import libpysal
        w = libpysal.weights.lat2W(m, m)
        w.transform = pick(c, "b", "r", "o")
        n = m * m
        x = c.rng.randn(n, 1)
        y = x * np.where(np.arange(n) < n // 2, 1, 3)[:, None] + c.rng.randn(n, 1) * 0.3
        kind = pick(c, "OLS", "none", "GM_Lag")
        import spreg.ols
        reg = None if kind == "none" else dict(reg=getattr(spreg, kind), y=y, x=x)
        if kind == "GM_Lag":
            reg["w"] = libpysal.weights.lat2W(m, m)
        dt_ = np.hstack([x, y])
        def f():
            try:
                r = spreg.skater_reg.Skater_reg().fit(3, w, dt_, reg, quorum=4, trace=False)
            except ValueError as e:
                return ["refused", str(e)]
            return list(map(int, r.current_labels_))
        return dict(w=w, data=dt_, reg=reg), f
    if name in ("spinv", "splogdet", "spfill_diagonal", "spmin", "spmax", "spisfinite"):
        import scipy.sparse as SP
        A = c.rng.randn(6, 6) + 6 * np.eye(6)
        S = SP.csc_matrix(np.where(np.abs(A) > 0.7, A, 0))
        f = (lambda: [su.spfill_diagonal(A.copy(), 2.0), su.spfill_diagonal(S.tocsr(), 2.0)]) if name == "spfill_diagonal" else (lambda: [getattr(su, name)(A), getattr(su, name)(S)])
        return dict(A=A, S=S), f
    if name in ("optim_moments", "sp_att", "RegressionPropsY"):
        G = c.rng.randn(3, 3)
        g = c.rng.randn(3, 1)
        V = np.cov(c.rng.randn(3, 20))
        d = K.spdata(c, k=1)
        p = c.rng.randn(d.n, 1)
        f = dict(optim_moments=lambda: [ut.optim_moments([G, g]), ut.optim_moments([G, g], vcX=V)], sp_att=lambda: ut.sp_att(d.w, d.y, p, d.y, 0.3),
                 RegressionPropsY=lambda: ut.lag_spatial(d.w, d.y))[name]
        return dict(G=G, g=g, V=V, y=d.y, p=p, w=d.w), f
    raise KeyError(name)


def flatw(w):
    return [list(w.id_order), w.transform, w.sparse.toarray()]


TOOLS = {"diagnostics": ["f_stat", "t_stat", "r2", "ar2", "se_betas", "log_likelihood", "akaike", "schwarz", "condition_index", "jarque_bera", "breusch_pagan",
                         "koenker_bassett", "white", "vif", "likratiotest", "dwh"],
         "diagnostics_tsls": ["tsls_t_stat", "pr2_aspatial", "pr2_spatial"],
         "diagnostics_sp": ["LMtests", "MoranRes", "AKtest", "lm_wx", "lm_spdurbin", "comfac_test"],
         "diagnostics_probit": ["pred_table", "probit_fit", "probit_lrtest", "mcfad_rho", "probit_ape", "sp_tests", "moran_KP"],
         "diagnostics_panel": ["panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror", "panel_Hausman"],
         "dgp": ["make_x", "make_error", "make_vmult", "make_bin", "dgp_errproc", "dgp_slxerror", "dgp_spdurbin", "dgp_lagerr", "dgp_gns", "dgp_mess", "dgp_lag",
                 "dgp_sperror", "dgp_probit"],
         "regimes": ["w_regime", "w_regimes", "w_regimes_union", "x2xsp", "regimeX_setup", "set_name_x_regimes", "check_cols2regi", "Regimes_Frame", "buildR", "buildR1var",
                     "check_const_regi", "_get_weighted_var"],
         "spsearch": ["stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"],
         "sputils": ["i_multipliers", "spmultiplier", "spinv", "splogdet", "spfill_diagonal", "spmin", "spmax", "spisfinite"],
         "utils": ["inverse_prod", "power_expansion", "lag_spatial", "optim_moments", "sp_att"],
         "nslx": ["NSLX"], "skater_reg": ["Skater_reg"]}


@contract("C22", ["%s:%s" % (m, {"tsls_t_stat": "t_stat", "NSLX": "NSLX.__init__", "Skater_reg": "Skater_reg.fit", "LMtests": "LMtests.__init__", "MoranRes": "MoranRes.__init__",
                                 "AKtest": "AKtest.__init__"}.get(f, f)) for m in TOOLS for f in TOOLS[m]],
          cases=[dict(name=f) for m in TOOLS for f in TOOLS[m]], sym=False, draws=3, timeout=120, bounded="random data n<=80, random options")
def tools(c, name):
    try:
        kw, f = tool(c, name)
    except np.linalg.LinAlgError:
        c.assume(False)
    before = {k: snap(v) for k, v in kw.items()}
    with zoo.quiet():
        r1 = f()
    unchanged(c, kw, before)
    first = copy.deepcopy(flat(r1))
    c.true("a result was returned", len(first) > 0)
    with zoo.quiet():
        r2 = f()
    unchanged(c, kw, before, "second call: ")
    c.true("same value again", numbers_equal(first, flat(r2)))
    c.true("an earlier result is not changed by a later call", numbers_equal(first, flat(r1)))
    c.frame_all("inputs unchanged")
