"""C21: invalid input is refused, valid input is accepted unchanged in meaning."""
import itertools

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo


def finite_pred(c):
    """contract of spisfinite (checked on its own below): true exactly for finite data."""
    if c.symbolic:
        from .. import arr as A
        c.stub("sputils:spisfinite", lambda a: not A.has_nonfinite(a))


# ------------------------------------------------------------------ the checkers, for all sizes
@contract("C21", ["user_output:check_arrays"],
          cases=[dict(shape=s) for s in (["n1", "nk"], ["nk"], ["n", "nk", None, "n1"], ["nk", "m1"], ["n1", "n", "m"], ["m", "nk", None],
                                         ["nkm"], ["n1", "nkm"], ["wide"], ["n1", "nk", "wide"], ["bad", "n1"], ["n1", "nk", "bad"], ["n", "badk"])], draws=6)
def check_arrays(c, shape):
    """accepts exactly arrays of equal length, at most two axes, no more columns than rows, all finite; returns the length."""
    f = c.func("user_output:check_arrays")
    n, k = c.dim("n", 6, 20), c.dim("k", 1, 4)
    m = n + c.dim("m", 1, 3)
    c.assume(n >= k)
    finite_pred(c)
    mk = {"n1": lambda s: c.array(s, n, 1), "nk": lambda s: c.array(s, n, k), "n": lambda s: c.array(s, n), "m1": lambda s: c.array(s, m, 1),
          "m": lambda s: c.array(s, m), None: lambda s: None, "nkm": lambda s: c.array(s, n, k, m), "wide": lambda s: c.array(s, n, n + k),
          "bad": lambda s: c.spoil(c.array(s, n, 1)), "badk": lambda s: c.spoil(c.array(s, n, k))}
    A = [mk[s]("A%d" % i) for i, s in enumerate(shape)]
    if any(s in ("m1", "m", "nkm", "wide", "bad", "badk") for s in shape):
        c.raises("different lengths, three axes, more columns than rows, NaN or infinity: refused", lambda: f(*A))
    else:
        c.eq("number of observations", f(*A), n)
    c.frame("inputs unchanged", *[a for a, s in zip(A, shape) if a is not None and s not in ("bad", "badk")])


@contract("C21", ["user_output:check_y", "user_output:check_numeric_bool"],
          cases=[dict(shape=s) for s in ("n1", "n", "m1", "m", "n2", "nk1", "bad", "badv")], draws=6)
def check_y(c, shape):
    """y must be one finite numeric column of the right length; a vector becomes a column with the same values."""
    f = c.func("user_output:check_y")
    n = c.dim("n", 6, 20)
    m = n + c.dim("m", 1, 3)
    y = {"n1": lambda: c.array("y", n, 1), "n": lambda: c.array("y", n), "m1": lambda: c.array("y", m, 1), "m": lambda: c.array("y", m),
         "n2": lambda: c.array("y", n, 2), "nk1": lambda: c.array("y", n, 2, 1), "bad": lambda: c.spoil(c.array("y", n, 1)),
         "badv": lambda: c.spoil(c.array("y", n))}[shape]()
    if shape in ("n1", "n"):
        r, nm = f(y, n, "name")
        c.eq("same values, as a column", r, y if shape == "n1" else y.reshape(n, 1))
        c.same("two axes", len(r.shape), 2)
        c.same("name kept", nm, "name")
        c.same("no name invented", f(y, n)[1] is None, True)
    else:
        c.raises("refused", lambda: f(y, n, "name"))
    if not shape.startswith("bad"):
        c.frame("inputs unchanged", y)


@contract("C21", ["user_output:check_endog", "user_output:check_numeric_bool"],
          cases=[dict(shape=s) for s in (["nk", "nj"], ["n", "nj"], [None, None], ["nk", None], ["bad", "nj"], ["nk", "bad"], ["n", "n"])], draws=5)
def check_endog(c, shape):
    f = c.func("user_output:check_endog")
    n, k, j = c.dim("n", 6, 20), c.dim("k", 1, 3), c.dim("j", 1, 3)
    A = [{"nk": lambda: c.array("A%d" % i, n, k), "nj": lambda: c.array("A%d" % i, n, j), "n": lambda: c.array("A%d" % i, n), None: lambda: None,
          "bad": lambda: c.spoil(c.array("A%d" % i, n, k))}[s]() for i, s in enumerate(shape)]
    names = [["e%d" % i] if i else None for i in range(len(A))]
    if "bad" in shape:
        c.raises("NaN or infinity refused", lambda: f(list(A), list(names)))
        return
    r = f(list(A), list(names))
    c.same("arrays then names", len(r), 2 * len(A))
    for i, (a, s) in enumerate(zip(A, shape)):
        if a is None:
            c.same("nothing stays nothing", r[i] is None, True)
        else:
            c.eq("same values, as a matrix", r[i], a.reshape(n, 1) if s == "n" else a)
            c.same("two axes", len(r[i].shape), 2)
        c.same("names kept", r[len(A) + i], names[i])
    c.frame("inputs unchanged", *[a for a in A if a is not None])


CONST = [dict(pat=p, rem=r, named=nm) for k in (1, 2, 3) for p in itertools.product((0, 1), repeat=k) for r in (False, True) for nm in (True, False)]


@contract("C21", ["user_output:check_constant", "user_output:check_numeric_bool", "sputils:sphstack"], cases=CONST, draws=1,
          note="every pattern of constant and varying columns among three, all n")
def check_constant(c, pat, rem, named):
    """constant columns go, the others stay in order with their names, and exactly one column of ones is put in front unless asked not to."""
    f = c.func("user_output:check_constant")
    n, np_ = c.dim("n", 6, 20), c.np
    cols = []
    for i, p in enumerate(pat):
        a = c.array("x%d" % i, n, 1)
        if c.symbolic:
            rng = np_.ptp(a, axis=0)[0]
            c.assume(rng == 0 if p else rng > 0)
        elif p:
            a = np.full((n, 1), c.rng.choice([0.0, 1.0, -3.25]))
        cols.append(a)
    x = np_.hstack(cols)
    names = ["v%d" % i for i in range(len(pat))] if named else None
    given = list(names) if named else None
    xc, nm, warn = f(x, given, rem)
    keep = [a for a, p in zip(cols, pat) if not p]
    want = keep if rem else [c.ones(n, 1)] + keep
    c.same("columns kept", xc.shape[1], len(want))
    if want:
        c.eq("the varying columns, in order" + ("" if rem else ", behind one column of ones"), xc, np_.hstack(want))
    c.same("names of the columns kept", nm, [s for s, p in zip(names, pat) if not p] if named else None)
    c.same("warned exactly when a column went", warn is not None, any(pat))
    if named and any(pat):
        c.same("warning names the columns", all(s in warn for s, p in zip(names, pat) if p), True)
    c.same("list of names not modified", given, names)
    c.frame("inputs unchanged", *cols)
    if not c.symbolic:
        c.eq("design matrix not modified", x, np.hstack(cols))


@contract("C21", ["user_output:check_constant"], cases=[dict(rem=False), dict(rem=True)], draws=2)
def check_constant_vector(c, rem):
    """a vector is a single column; NaN and infinity are refused."""
    f = c.func("user_output:check_constant")
    n = c.dim("n", 6, 20)
    x, z = c.array("x", n), c.array("z", n, 2)
    if c.symbolic:
        c.assume(c.np.ptp(x.reshape(n, 1), axis=0)[0] > 0)
    xc = f(x, ["v"], rem)[0]
    c.eq("column", xc, x.reshape(n, 1) if rem else c.np.hstack((c.ones(n, 1), x.reshape(n, 1))))
    bad = c.spoil(z)
    c.raises("NaN or infinity refused", lambda: f(bad, ["a", "b"], rem))
    c.frame("inputs unchanged", x)


@contract("C21", ["user_output:check_regimes"], cases=[dict(m=m) for m in range(5)], draws=10)
def check_regimes(c, m):
    """at least two regimes, and on average at least K + 1 observations in each."""
    f = c.func("user_output:check_regimes")
    N, k = c.dim("N", 2, 40), c.dim("K", 1, 12)
    regs = list("abcde"[:m])
    if m < 2:
        c.raises("fewer than two regimes refused", lambda: f(regs, N, k))
    elif N < m * (k + 1):
        c.raises("too few observations refused", lambda: f(regs, N, k))
    else:
        c.same("accepted", f(regs, N, k) is None, True)


@contract("C21", ["sputils:spisfinite"], sym=False, draws=10, bounded="random arrays, dense and sparse")
def spisfinite(c):
    f = c.func("sputils:spisfinite")
    import scipy.sparse as SP
    a = c.array("a", c.dim("n", 1, 9), c.dim("k", 1, 4))
    for b in (a, SP.csr_matrix(a)):
        c.same("finite", bool(f(b)), True)
    b = c.spoil(a)
    for z in (b, SP.csr_matrix(b)):
        c.same("not finite", bool(f(z)), False)


@contract("C21", ["user_output:check_spat_diag", "user_output:check_regi_args"], sym=False, draws=1, bounded="every combination of options")
def check_flags(c):
    f = c.func("user_output:check_spat_diag")
    w = c.weights("W", 9, "row")
    kw = K.kernel_weights(c, "K", 9)
    for sd, wt, rob, slx in itertools.product((True, False), ("none", "w", "kernel"), (None, "white", "hac", "ogmm"), (0, 1, 2)):
        r, warn = f(sd, {"none": None, "w": w, "kernel": kw}[wt], rob, slx)
        off = sd and (rob == "hac" or (wt == "kernel" and slx > 0))
        c.same("diagnostics off for hac and kernel SLX, as asked otherwise", bool(r), bool(sd and not off))
        c.same("warned exactly when switched off", warn is not None, bool(off))
    g = c.func("user_output:check_regi_args")
    for cr, c2, rs, fl in itertools.product(("many", "one"), ("all", [True, False]), (True, False), (True, False)):
        warn = g(cr, c2, rs, fl)
        c.same("warned exactly on other values", warn is not None, not (cr == "many" and c2 == "all" and rs == fl))


@contract("C21", ["user_output:check_reg_list"], sym=False, draws=5, bounded="random regimes in every container")
def check_reg_list(c):
    import pandas as pd
    f = c.func("user_output:check_reg_list")
    n = c.dim("n", 4, 12)
    lab = zoo.pick(c, ["a", "b"], [1, 2], [0, 7], ["u", "v"])
    r = [lab[i] for i in c.rng.randint(0, 2, n)]
    for cont in (r, np.array(r), pd.Series(r, name="regs"), pd.Series(r, index=range(5, 5 + n), name="regs")):
        for nm in (None, "mine"):
            o, name = f(cont, nm, n)
            c.same("same labels in the same order", list(o), r)
            c.same("a list", isinstance(o, list), True)
            c.same("name", name, nm or ("regs" if isinstance(cont, pd.Series) else None))
    for bad in ("abcd"[:n], tuple(r), None, 3, dict(enumerate(r)), r[:-1], r + [lab[0]], np.array(r)[:-1], pd.Series(r[:-1])):
        c.raises("other types and lengths refused", lambda: f(bad, None, n))


@contract("C21", ["user_output:check_weights"], sym=False, draws=5, bounded="random weights in every container")
def check_weights(c):
    """W objects, graphs, dense and sparse matrices stand for the same weights; missing, badly sized, self-linked ones are refused."""
    import libpysal
    from libpysal import weights
    f = c.func("user_output:check_weights")
    n = c.dim("n", 6, 14)
    w = c.weights("W", n, "row")
    W, y = c.wd(w), c.array("y", n, 1)
    with zoo.quiet():
        forms = [w, W.copy(), libpysal.graph.Graph.from_W(w)]
        for q in forms:
            for req, slx in ((True, 0), (False, 0), (False, 1), (True, 2)):
                r = f(q, y, w_required=req, slx_lags=slx)
                c.eq("same weights", c.wd(r), W, tol=1e-12)
                c.same("weights object", isinstance(r, weights.W), True)
        c.eq("an accepted W object is used as it is", f(w, y, w_required=True) is w, 1)
        c.same("no weights needed", f(None, y) is None, True)
        c.raises("missing weights refused", lambda: f(None, y, w_required=True))
        c.raises("missing weights refused when X is lagged", lambda: f(None, y, slx_lags=1))
        for m in (n - 1, n + 1):
            y2 = np.zeros((m, 1))
            c.raises("wrong size refused", lambda: f(w, y2))
        W2 = W.copy()
        W2[c.rng.randint(n), :] = 0
        W2 = W + 0.0
        i = c.rng.randint(n)
        W2[i, i] = zoo.pick(c, 0.5, -0.25, 1.0)
        c.raises("a link to itself refused", lambda: f(W2, y))
        W3 = W.copy()
        W3[0, 0], W3[1, 1] = 1.0, -1.0
        c.raises("links to itself refused", lambda: f(W3, y))
        for bad in ("w", 3, [1, 2], W.tolist()):
            c.raises("other types refused", lambda: f(bad, y, w_required=True))
        g = K.kernel_weights(c, "K", n)
        c.raises("kernel weights refused", lambda: f(g, y))
        c.raises("kernel weights refused for higher lags", lambda: f(g, y, slx_lags=2, allow_wk=True))
        c.raises("kernel weights refused unless the model allows them", lambda: f(g, y, slx_lags=1))
        r = f(g, y, slx_lags=1, allow_wk=True)
        G = g.sparse.toarray()
        c.eq("kernel weights lag without the diagonal", r.sparse.toarray(), G - np.diag(np.diag(G)))
    c.eq("inputs unchanged", c.wd(w), W)


@contract("C21", ["user_output:check_robust"], sym=False, draws=6, bounded="random kernels and corrupted kernels")
def check_robust(c):
    f = c.func("user_output:check_robust")
    n = c.dim("n", 6, 14)
    w, g = c.weights("W", n, "row"), K.kernel_weights(c, "K", n)
    for r, k in ((None, None), ("white", None), ("White", g), ("ogmm", None), ("hac", g), ("HAC", g), (None, g)):
        c.same("accepted", f(r, k) is None, True)
    for r, k in (("hac", None), ("hac", w), ("HAC", 3), ("bogus", None), ("bogus", g), ("hac ", g), ("whit", None)):
        c.raises("refused", lambda: f(r, k))
    import copy
    for how in ("negative", "large", "diagonal"):
        g2 = copy.deepcopy(g)
        i = g2.id_order[c.rng.randint(n)]
        nb = [j for j, q in enumerate(g2.neighbors[i]) if (q == i) == (how == "diagonal")]
        if not nb:
            continue
        g2.weights[i] = list(g2.weights[i])
        g2.weights[i][nb[c.rng.randint(len(nb))]] = {"negative": -0.2, "large": 1.5, "diagonal": zoo.pick(c, 0.5, 1.5)}[how]
        g2._reset()
        with zoo.quiet():
            c.raises("bad kernel refused", lambda: f("hac", g2))


# ------------------------------------------------------------------ every public estimator
def spoil(c, a, how):
    a = np.array(a, dtype=float)
    if how == "short":
        return a[:-1]
    if how == "long":
        return np.vstack([a, a[:1]])
    if how in ("nan", "inf", "-inf"):
        a[c.rng.randint(a.shape[0]), c.rng.randint(a.shape[1])] = float(how)
        return a
    if how == "text":
        return a.astype(str).astype(object)
    if how == "bool":
        return a > 0
    if how == "list":
        return a.tolist()
    if how == "3d":
        return a.reshape(a.shape + (1,))
    if how == "two":
        return np.hstack([a, a + 1])
    if how == "wide":
        return np.hstack([a[:5]] * 7)


def bad_weights(c, w, how):
    import libpysal
    with zoo.quiet():
        if how == "small":
            return libpysal.weights.util.lat2W(w.n - 1, 1)
        if how == "large":
            return libpysal.weights.util.lat2W(w.n + 1, 1)
        if how == "diagonal":
            return libpysal.weights.fill_diagonal(w, val=zoo.pick(c, 1.0, 0.3))
        if how == "kernel":
            return libpysal.weights.Kernel(c.rng.rand(w.n, 2), k=5)
    return {"missing": None, "text": "w", "list": [1, 2]}[how]


def variants(c, kind, d, kw):
    """every corruption of one accepted call that must be refused."""
    n = d.n
    for nm in ("y", "x", "yend", "q"):
        if nm in kw:
            for how in ("short", "long", "nan", "inf", "-inf", "text", "bool", "list", "3d", "wide") + (("two",) if nm == "y" else ()):
                yield "%s: %s" % (nm, how), {nm: spoil(c, kw[nm], how)}
    if "w" in kw:
        for how in ("missing", "small", "large", "diagonal", "kernel", "text", "list"):
            if how in ("missing", "kernel") and kind.replace("_Regimes", "") in ("OLS", "TSLS"):
                if how == "missing" and not (kw.get("slx_lags") or (kw.get("spat_diag") and kw.get("robust") != "hac" and kind == "TSLS")):
                    continue
                if how == "kernel" and "OLS" in kind and kw.get("slx_lags") == 1:
                    continue
            if how == "missing" and kind == "Probit" and not kw.get("slx_lags") and not kw.get("spat_diag"):
                continue
            yield "w: " + how, {"w": bad_weights(c, kw["w"], how)}
    if "robust" in kw:
        yield "robust: unknown", dict(robust=zoo.pick(c, "bogus", "hac2", "whit"))
        yield "robust: hac without a kernel", dict(robust="hac", gwk=None)
        yield "robust: hac with contiguity weights", dict(robust="hac", gwk=kw["w"])
    if "regimes" in kw:
        R = kw["regimes"]
        for how, r in (("short", R[:-1]), ("long", R + R[:1]), ("single", ["a"] * n), ("as many as observations", list(range(n))), ("text", "abc"),
                       ("tuple", tuple(R)), ("missing", None)):
            if not (how == "missing" and "Regimes" not in kind):
                yield "regimes: " + how, dict(regimes=r)
    if "method" in kw:
        yield "method: unknown", dict(method="bogus")
    if kw.get("slx_lags"):
        yield "slx_vars: too long", dict(slx_vars=[True] * (d.k + 1))


@contract("C21", ["user_output:check_arrays", "user_output:check_y", "user_output:check_endog", "user_output:check_weights", "user_output:check_robust",
                  "user_output:check_regimes", "user_output:check_reg_list"],
          cases=[dict(kind=k) for k in zoo.CROSS + zoo.REGIMES], sym=False, draws=2, timeout=120, bounded="random data n<=80 and options, every listed corruption")
def refused(c, kind):
    import inspect
    import spreg
    kind, d, kw = zoo.cross_args(c, kind)
    try:
        zoo.build(c, kind, kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    sig = inspect.signature(getattr(spreg, kind).__init__).parameters
    for label, ch in variants(c, kind, d, kw):
        if all(k in sig for k in ch):
            c.raises(label, lambda: zoo.build(c, kind, dict(kw, **ch)))
    c.frame_all("inputs unchanged")


@contract("C21", ["user_output:check_arrays"], cases=[dict(kind=k) for k in zoo.SYSTEMS + zoo.PANELS + zoo.PANELS_NEW], sym=False, draws=2, timeout=120,
          bounded="random systems and panels, every listed corruption")
def refused_systems(c, kind):
    system = kind in zoo.SYSTEMS
    try:
        kind, d, kw = (zoo.system_args if system else zoo.panel_args)(c, kind)
        zoo.build(c, kind, kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    for nm in ("bigy", "bigX", "bigyend", "bigq") if system else ("y", "x"):
        if nm not in kw:
            continue
        for how in ("short", "long", "nan", "inf", "-inf", "text", "3d"):
            if system:
                D = dict(kw[nm])
                r = zoo.pick(c, *list(D))
                D[r] = spoil(c, D[r], how)
            else:
                D = spoil(c, kw[nm], how)
            c.raises("%s: %s" % (nm, how), lambda: zoo.build(c, kind, dict(kw, **{nm: D})))
        if system:
            D = dict(kw[nm])
            D.pop(list(D)[-1])
            if nm != "bigy":
                c.raises("%s: missing equation" % nm, lambda: zoo.build(c, kind, dict(kw, **{nm: D})))
    if not system:
        c.raises("x: columns", lambda: zoo.build(c, kind, dict(kw, x=kw["x"][:, :-1])))
    if "w" in kw:
        for how in ("missing", "small", "large", "diagonal", "kernel", "text"):
            if not (how == "missing" and kind == "SUR" and not kw.get("spat_diag")):
                c.raises("w: " + how, lambda: zoo.build(c, kind, dict(kw, w=bad_weights(c, kw["w"], how))))
    c.frame_all("inputs unchanged")


# ------------------------------------------------------------------ equivalent inputs
def results(m):
    out = {}
    for nm in ("betas", "u", "predy", "vm", "e_filtered", "logll", "sig2", "rho", "lam", "r2", "pr2"):
        try:
            v = getattr(m, nm, None)
        except Exception:
            v = None
        if v is not None and not isinstance(v, str):
            out[nm] = np.asarray(v, dtype=float)
    return out


def agree(c, label, m0, m1, names=True, tol=2e-5, skip=()):
    a, b = ({k: v for k, v in results(m).items() if k not in skip} for m in (m0, m1))
    c.same(label + ": same attributes", sorted(b), sorted(a))
    for nm in a:
        if nm in b:
            c.eq("%s: %s" % (label, nm), b[nm], a[nm], tol=tol)
    if names:
        for nm in ("name_y", "name_x", "name_yend", "name_q", "name_z", "name_regimes", "name_x_r"):
            if hasattr(m0, nm):
                c.same("%s: %s" % (label, nm), getattr(m1, nm, None), getattr(m0, nm))


@contract("C21", ["user_output:check_arrays", "user_output:check_y", "user_output:check_endog", "user_output:check_weights", "user_output:check_constant",
                  "user_output:check_reg_list"],
          cases=[dict(kind=k) for k in zoo.CROSS + zoo.REGIMES], sym=False, draws=3, timeout=120, bounded="random data n<=80 and options, every container")
def accepted(c, kind):
    """arrays, vectors, series, data frames, graphs, matrices: the same numbers and the right names."""
    import libpysal
    import pandas as pd
    kind, d, kw = zoo.cross_args(c, kind)
    try:
        m0 = zoo.build(c, kind, kw)
    except np.linalg.LinAlgError:
        c.assume(False)
    n = d.n
    idx = [pd.RangeIndex(n), pd.RangeIndex(5, n + 5), ["r%d" % i for i in range(n)]][c.rng.randint(3)]

    def frame(a, nm):
        a = np.asarray(a)
        return pd.DataFrame(a, columns=nm, index=idx)
    ch = dict(y=pd.Series(kw["y"].ravel(), name=kw["name_y"], index=idx), x=frame(kw["x"], kw["name_x"]))
    for nm in ("yend", "q"):
        if nm in kw:
            ch[nm] = frame(kw[nm], kw["name_" + nm])
            if kw[nm].shape[1] == 1 and zoo.flip(c):
                ch[nm] = ch[nm][ch[nm].columns[0]]
    drop = {k: v for k, v in kw.items() if k not in ("name_y", "name_x", "name_yend", "name_q", "name_regimes")}
    if "regimes" in kw:
        ch["regimes"] = pd.Series(kw["regimes"], name=kw.get("name_regimes") or "REG", index=idx)
        if not kw.get("name_regimes"):
            kw["name_regimes"] = "REG"
            m0 = zoo.build(c, kind, kw)
    agree(c, "series and data frames carry their names", m0, zoo.build(c, kind, dict(drop, **ch)))
    agree(c, "vector y", m0, zoo.build(c, kind, dict(kw, y=kw["y"].ravel())))
    if "regimes" in kw:
        agree(c, "regimes as an array", m0, zoo.build(c, kind, dict(kw, regimes=np.array(kw["regimes"]))))
    if kw.get("w") is not None and not kw.get("regime_err_sep") and not kw.get("regime_lag_sep"):
        # (separate equations standardise the weights of each regime again, for which only a W object carries its transformation)
        # (only a W object carries its transformation: the Ord method's covariance depends on it, known findings F05 and F06)
        skip = ("vm",) if kw.get("method") == "ord" else ()
        agree(c, "weights as a graph", m0, zoo.build(c, kind, dict(kw, w=libpysal.graph.Graph.from_W(kw["w"]))), skip=skip)
        agree(c, "weights as a matrix", m0, zoo.build(c, kind, dict(kw, w=c.wd(kw["w"]))), skip=skip)
    if "Regimes" not in kind or kw.get("constant_regi") == "many":
        one = np.full((n, 1), zoo.pick(c, 1.0, 2.5))
        j = c.rng.randint(d.k + 1)
        x2 = np.hstack([kw["x"][:, :j], one, kw["x"][:, j:]])
        n2 = list(kw["name_x"][:j]) + ["ones"] + list(kw["name_x"][j:])
        if not isinstance(kw.get("slx_vars", "All"), list) and not isinstance(kw.get("cols2regi", "all"), list):
            agree(c, "a constant among the regressors is not added twice", m0, zoo.build(c, kind, dict(kw, x=x2, name_x=n2)))
            j = c.rng.randint(d.k + 2)
            x3 = np.hstack([x2[:, :j], one * 3, x2[:, j:]])
            agree(c, "nor are two constants", m0, zoo.build(c, kind, dict(kw, x=x3, name_x=n2[:j] + ["threes"] + n2[j:])))
    mats = [nm for nm in ("y", "x", "yend", "q") if nm in kw]
    agree(c, "arrays stored by column", m0, zoo.build(c, kind, dict(kw, **{nm: np.asfortranarray(kw[nm]) for nm in mats})))
    agree(c, "arrays that are views", m0, zoo.build(c, kind, dict(kw, **{nm: np.repeat(kw[nm], 2, axis=0)[::2] for nm in mats})))
    if kw.get("w") is not None and not kw.get("regime_err_sep") and not kw.get("regime_lag_sep"):
        agree(c, "weights with other names of the observations", m0, zoo.build(c, kind, dict(kw, w=renamed(c, kw["w"]))),
              skip=("vm",) if kw.get("method") == "ord" else ())
    whole = {nm: kw[nm] if kind == "Probit" and nm == "y" else np.round(10 * kw[nm]) for nm in mats}
    try:
        m1 = zoo.build(c, kind, dict(kw, **whole))
    except Exception:
        m1 = None                       # rounding made the data degenerate
    if m1 is not None:
        ints = {nm: a.astype(int) for nm, a in whole.items() if zoo.flip(c) or nm == "y"}
        agree(c, "integer data stored as integers", m1, zoo.build(c, kind, dict(kw, **{**whole, **ints})))
    c.frame_all("inputs unchanged")


def renamed(c, w):
    """the same weights with names (in another alphabetical order) for the observations."""
    import libpysal
    nm = dict(zip(w.id_order, c.rng.permutation(["%s%03d" % (chr(97 + i % 26), i) for i in range(w.n)])))
    with zoo.quiet():
        r = libpysal.weights.W({nm[i]: [nm[j] for j in w.neighbors[i]] for i in w.id_order}, {nm[i]: list(w.weights[i]) for i in w.id_order},
                               id_order=[nm[i] for i in w.id_order], silence_warnings=True)
    return r
