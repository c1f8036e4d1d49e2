"""C26: the nonlinear SLX model."""
import numpy as np

from ..engine import contract
from . import common as K
from . import zoo

N = "nslx:"


class CSR:
    """A sparse matrix in the compressed form scipy keeps: the vector of its stored elements, over an arbitrary set of positions.
    R (n x m) and C (m x n) are the indicator matrices of the rows and columns of the stored elements, so the matrix is R diag(data) C.
    Operations act on the stored elements, as scipy's do when both operands store the same positions."""

    def __init__(self, R, C, data):
        self.R, self.C, self.data = R, C, data

    def _new(self, data):
        return CSR(self.R, self.C, data)

    def copy(self):
        return self._new(self.data.copy())

    def __mul__(self, a):
        assert not isinstance(a, CSR)
        return self._new(self.data * a)
    __rmul__ = __mul__

    def __neg__(self):
        return self._new(-self.data)

    def multiply(self, o):
        assert o.R is self.R and o.C is self.C
        return self._new(self.data * o.data)

    def power(self, a):
        return self._new(self.data ** a)

    def __matmul__(self, x):
        return self.R @ (self.data * (self.C @ x))


def weights(c, name, n, zeros):
    """-> (stored matrix, R, C, stored values, which of them are zero): positive stored values, and stored zeros when asked for."""
    if c.symbolic:
        m1 = c.dim("m_" + name, 1)
        d = c.array("d_" + name, m1, positive=True)
        if zeros:
            m2 = c.dim("mz_" + name, 1)
            R, C = c.np.hstack((c.array("R_" + name, n, m1), c.array("Rz_" + name, n, m2))), c.np.vstack((c.array("C_" + name, m1, n), c.array("Cz_" + name, m2, n)))
            data = c.np.hstack((d, c.np.zeros(m2)))
        else:
            R, C, data = c.array("R_" + name, n, m1), c.array("C_" + name, m1, n), d
        return CSR(R, C, data), R, C, d, zeros
    import scipy.sparse as SP
    pat = c.rng.rand(n, n) < 0.4
    np.fill_diagonal(pat, False)
    pat[0, n - 1] = True
    i, j = np.nonzero(pat)
    d = c.rng.uniform(0.05, 1, len(i))
    if zeros:
        d[c.rng.rand(len(d)) < 0.3] = 0.0
    w = SP.coo_array((d, (i, j)), shape=(n, n)).tocsr()
    c.inputs["w_" + name] = w
    R, C = np.zeros((n, len(d))), np.zeros((len(d), n))
    rows = np.repeat(np.arange(n), np.diff(w.indptr))
    R[rows, np.arange(len(d))] = 1
    C[np.arange(len(d)), w.indices] = 1
    return w, R, C, w.data.copy(), zeros


def entries(c, d, f, at0):
    """f of the positive stored values, at0 of the stored zeros."""
    if c.symbolic:
        return f(d)
    with np.errstate(all="ignore"):
        return np.where(d > 0, f(np.where(d > 0, d, 1.0)), at0)


def lag(c, w, f, at0, v):
    """R diag(f(data)) C v"""
    _, R, C, d, zeros = w
    if c.symbolic and zeros:
        m1 = d.shape[0]
        z = (C @ v)
        r = R[:, :m1] @ (f(d) * z[:m1])
        return r + R[:, m1:] @ (z[m1:] * at0) if at0 else r
    return R @ (entries(c, d, f, at0) * (C @ v))


def value(c, kind, a):
    if kind == "exponential":
        return (lambda d: c.np.exp(-(d * a))), 1
    return (lambda d: d ** a if not c.symbolic else c.np.exp(c.np.log(d) * a)), 0


def slope(c, kind, a):
    """derivative of value() with respect to a"""
    f, _ = value(c, kind, a)
    if kind == "exponential":
        return (lambda d: -(d * f(d))), 0
    return (lambda d: f(d) * c.np.log(d)), 0


def slope_recorded(c, a):
    """finding F56: what the code returns for the exponential gradient"""
    f, _ = value(c, "exponential", a)
    return (lambda d: -(f(d) * c.np.log(d * a) * d)), 0


def alpha(c, i=0):
    return c.scalar("alpha%d" % i, 0.2, 3, positive=True) if c.symbolic else c.scalar("alpha%d" % i, 0.2, 3)


@contract("C26", [N + "_nltransform"], cases=[dict(kind=k, zeros=z, grad=g) for k in ("exponential", "power") for z in (False, True) for g in (0, 1)
                                             if not (k == "exponential" and z)], draws=6)
def transform(c, kind, zeros, grad):
    n = c.dim("n", 3, 9)
    w = weights(c, "w", n, zeros)
    v = c.array("v", n)
    a = alpha(c)
    before = w[0].data.copy()
    with zoo.quiet():
        got = c.func(N + "_nltransform")(a, w[0], K.pick_case(c, kind), gradflag=grad) @ v
    if grad == 0:
        c.eq("the weights are the stated function of the distances", got, lag(c, w, *value(c, kind, a), v))
    elif kind == "power":
        c.eq("the gradient is the derivative of the weights", got, lag(c, w, *slope(c, kind, a), v))
    else:
        c.eq("the exponential gradient is the derivative of the weights", got, lag(c, w, *slope(c, kind, a), v))
        K.either(c, "the exponential gradient is right or as recorded", got, lag(c, w, *slope(c, kind, a), v), lag(c, w, *slope_recorded(c, a), v))
    c.eq("the stored distances are unchanged", w[0].data, before)


MODES = [dict(kinds=k, h=h) for k, h in ((("exponential",), 1), (("power",), 1), (("exponential",), 2), (("power",), 2), (("power", "exponential"), 2),
                                         (("exponential", "exponential"), 2), (("exponential", "power", "power"), 3))]


@contract("C26", [N + "nlmod", N + "nslxobj"], cases=[dict(m, zeros=z) for m in MODES for z in (False, True) if not (z and "exponential" in m["kinds"])], draws=4)
def model(c, kinds, h, zeros):
    """column i is transformed with its own alpha and its own (or the only) weights; the objective is the sum of squares of
    y - Xb - the sum of the transformed columns, at every argument."""
    n, k = c.dim("n", 4, 9), c.dim("k", 1, 3)
    ws = [weights(c, "w%d" % i, n, zeros) for i in range(len(kinds))]
    cols = [c.array("x%d" % i, n, 1) for i in range(h)]
    xw = c.np.hstack(cols)
    al = [alpha(c, i) for i in range(h)]
    if c.symbolic:
        av = c.np.array(al)
    else:
        av = np.array(al)
    wl = [w[0] for w in ws]
    of = lambda i: i if len(kinds) > 1 else 0
    want = [lag(c, ws[of(i)], *value(c, kinds[of(i)], al[i]), cols[i][:, 0]) for i in range(h)]
    with zoo.quiet():
        got = c.func(N + "nlmod")(av, xw, wl, list(kinds), gradflag=0)
        grad = c.func(N + "nlmod")(av, xw, wl, list(kinds), gradflag=1)
    c.structure(tuple(got.shape) == (n, h), "one column per transformed variable")
    for i in range(h):
        c.eq("column %d uses its own alpha, weights and variable" % i, got[:, i], want[i])
        kd = kinds[of(i)]
        v = cols[i][:, 0]
        right = lag(c, ws[of(i)], *slope(c, kd, al[i]), v)
        if kd == "power":
            c.eq("gradient of column %d" % i, grad[:, i], right)
        else:
            K.either(c, "gradient of column %d right or as recorded" % i, grad[:, i], right, lag(c, ws[of(i)], *slope_recorded(c, al[i]), v))
    X, y = c.array("X", n, k), c.array("y", n, 1)
    b = c.array("b", k, 1, style="plain")
    g = c.np.vstack([b] + [c.np.array([[a]]) for a in al]).flatten()
    with zoo.quiet():
        o = c.func(N + "nslxobj")(g, y, X, xw, wl, list(kinds), False)
    u = y - X @ b
    for q in want:
        u = u - q.reshape((-1, 1))
    c.eq("the objective is the sum of squared residuals", o, u.T @ u)


@contract("C26", [N + "nlmod", N + "_nltransform"], cases=[dict(kind=k) for k in ("exponential", "power", "gauss")], num=True, draws=3)
def refused(c, kind):
    n = c.dim("n", 3, 6)
    w = weights(c, "w", n, False)[0]
    xw = c.array("xw", n, 2)
    a = c.array("a", 1) if c.symbolic else c.array("a", 1)
    f = c.func(N + "nlmod")
    c.raises("as many alphas as columns", lambda: f(a, xw, [w], [kind]))
    a2 = c.np.array([alpha(c, 0), alpha(c, 1)])
    c.raises("as many weights as transformations", lambda: f(a2, xw, [w], [kind, kind]))
    if kind == "gauss":
        c.raises("unknown transformation", lambda: c.func(N + "_nltransform")(alpha(c, 0), w, kind))
        c.raises("unknown transformation of the gradient", lambda: c.func(N + "_nltransform")(alpha(c, 0), w, kind, 1))


class _Min:
    pass


@contract("C26", [N + "BaseNSLX.__init__"], cases=[dict(var=v) for v in (0, 1)], num=False,
          note="scipy.optimize.minimize trusted: returns an arbitrary point with the objective there")
def base(c, var):
    n, k, h = c.dim("n", 8), c.dim("k", 1, 4), c.dim("h", 1, 3)
    X, xw, y = c.array("X", n, k), c.array("xw", n, h), c.array("y", n, 1)
    b, a = c.array("b", k, 1), c.array("a", h, 1)
    Wx, Gx = c.array("Wx", n, h), c.array("Gx", n, h)
    g = c.np.vstack((b, a)).flatten()
    hess = c.array("hess", k, k)
    got = []
    calls = []

    def mod(al, xw_, w_, t_, gradflag=0):
        calls.append((al, xw_, w_, t_, gradflag))
        return Gx if gradflag else Wx

    def mini(fun, x0, args=(), options=None, **kw):
        r = _Min()
        r.x, r.fun, r.hess_inv = g, fun(g, *args), HI
        r.success, r.status, r.message, r.nit = True, 0, "ok", 7
        got.append((x0, options, kw))
        return r
    HI = c.array("Hi", k, k)
    hh, kh = c.array("Hh", h, h), c.array("Hk", k, h)
    HI = c.np.vstack((c.np.hstack((HI, kh)), c.np.hstack((kh.T, hh))))
    c.stub(N + "nlmod", mod)
    c.stub(N + "minimize", mini)
    o = c.func(N + "BaseNSLX")(y, X, xw, ["W"], ["power"], var, False, {"o": 1})
    x0, opts, kw = got[0]
    c.structure(len(got) == 1 and opts == {"o": 1} and not kw, "one minimisation, with the options given")
    c.eq("starts at OLS and alpha = 1", x0, c.np.vstack((c.np.linalg.inv(X.T @ X) @ (X.T @ y), c.np.ones((h, 1)))).flatten())
    c.structure(all(q[1] is xw and q[2] == ["W"] and q[3] == ["power"] for q in calls), "weights, variables and transformations handed over")
    for q in calls:
        c.eq("the alphas are the last parameters", q[0], a[:, 0])
    u = y - X @ b - Wx.sum(1).reshape((-1, 1))
    c.eq("reported coefficients are the minimiser", o.betas, g)
    c.eq("residual sum of squares", o.utu, u.T @ u)
    c.eq("sig2", o.sig2, u.T @ u / n)
    c.eq("predicted values", o.predy, y - u)
    c.eq("residuals", o.u, u)
    c.structure(o.n == n and o.k == k + h, "n and k")
    if var:
        s = (u.T @ u / n)[0, 0]
        c.eq("variance of the betas", o.vm[:k, :k], c.np.linalg.inv(X.T @ X) * s)
        c.eq("variance of the alphas", o.vm[k:, k:], c.np.linalg.inv(Gx.T @ Gx) * s)
        c.eq("no covariance", o.vm[:k, k:], c.np.zeros((k, h)))
        c.eq("no covariance (transposed)", o.vm[k:, :k], c.np.zeros((h, k)))
    else:
        c.eq("variance from the inverse hessian", o.vm, HI * (u.T @ u / n)[0, 0])
    c.frame("data unchanged", y, X, xw)


def points(c, style):
    n = int(c.rng.randint(8, 26))
    co = c.rng.rand(n, 2) * c.rng.choice([1, 10, 100])
    if style == "outlier":                       # the last point is nobody's neighbour
        co[-1] = co.max() * 20
    if style == "twins":                         # coincident points
        m = n // 3
        co[c.rng.permutation(n)[:m]] = co[c.rng.permutation(n)[:m]]
    if style == "grid":                          # many equal distances
        co = np.array([(i % 5, i // 5) for i in range(n)], float)
    return co


def brute(co, k, bound, kind, metric="Euclidean"):
    """-> rows of admissible neighbour values, None if distances tie at the cut-off."""
    n = len(co)
    d = np.sqrt(((co[:, None] - co[None]) ** 2).sum(2))
    if metric == "Arc":
        r = np.deg2rad(co)
        p = np.stack([np.cos(r[:, 1]) * np.cos(r[:, 0]), np.cos(r[:, 1]) * np.sin(r[:, 0]), np.sin(r[:, 1])], 1)
        d = 6371.0 * 2 * np.arcsin(np.clip(np.sqrt(((p[:, None] - p[None]) ** 2).sum(2)) / 2, 0, 1))
    out = []
    for i in range(n):
        o = sorted((d[i, j], j) for j in range(n) if j != i)
        near = [v for v, _ in o[:k]]
        if np.isinf(bound):
            mx = near[-1]
        else:
            near = [v for v in near if v <= bound]
            mx = max(near) if near else None
        f = (lambda v, mx=mx: 1 - (v / mx if mx else 0)) if kind == "power" else (lambda v, mx=mx: v / mx if mx else 0)
        out.append((sorted(near), mx, f, d[i]))
    return out


@contract("C26", ["utils:make_wnslx"], cases=[dict(kind=k, bound=b, style=s) for k in ("power", "exponential") for b in ("inf", "narrow", "wide")
                                              for s in ("random", "outlier", "twins", "grid")] +
          [dict(kind="power", bound="inf", style="arc"), dict(kind="exponential", bound="narrow", style="arc")],
          sym=False, draws=4, bounded="random, outlying, coincident and gridded points, n up to 25")
def distances(c, kind, bound, style):
    co = points(c, style)
    metric = "Arc" if style == "arc" else "Euclidean"
    n = len(co)
    k = int(c.rng.randint(3, 7))
    full = brute(co, k, np.inf, kind, metric)
    mxs = [r[1] for r in full]
    b = {"inf": np.inf, "wide": max(mxs) * 3, "narrow": float(np.median(mxs))* 0.9 + 1e-9}[bound]
    rows = brute(co, k, b, kind, metric)
    with zoo.quiet():
        w = c.func("utils:make_wnslx")(co, (k, b, zoo.pick(c, kind, kind.upper(), kind.title())), leafsize=zoo.pick(c, 2, 30), distance_metric=metric)
    c.structure(w.shape == (n, n), "n by n weights")
    D = w.tocoo()
    r_, c_, v_ = D.row, D.col, D.data
    c.true("no point is its own neighbour", not np.any(r_ == c_))
    for i in range(n):
        near, mx, f, d = rows[i]
        sel = r_ == i
        js = c_[sel]
        c.true("each neighbour once", len(set(js)) == len(js))
        # the neighbours are k nearest ones (ties at the cut-off may be broken either way)
        c.eq("the neighbours are the nearest points within the bandwidth", np.sort(d[js]), np.array(near), tol=1e-6, scale=1.0)
        if len(js):
            c.eq("the weights are the stated function of distance", v_[sel], np.array([f(q) for q in d[js]]), tol=1e-6, scale=1.0)


@contract("C26", [N + "NSLX.__init__"], cases=[dict(kinds=k, var=v, sel=s) for k in (("exponential",), ("power",), ("mixed",)) for v in (0, 1) for s in ("All", "some", "perm")],
          sym=False, draws=2, bounded="random data sets of 20 to 40 points, every option combination")
def whole(c, kinds, var, sel):
    """the parts fit together: the weights of the parameters given, for the variables chosen, with the names of the columns, and the
    fit statistics of the reported residuals."""
    import pandas as pd
    import spreg
    n, p = int(c.rng.randint(20, 40)), 3
    co = c.rng.rand(n, 2)
    x = c.rng.rand(n, p)
    flags = {"All": "All", "some": [bool(v) for v in c.rng.permutation([True, False, True])], "perm": [bool(v) for v in c.rng.permutation([True, False, False])]}[sel]
    pick = list(range(p)) if sel == "All" else [i for i in range(p) if flags[i]]
    h = len(pick)
    kk = int(c.rng.randint(3, 6))
    if kinds == ("mixed",):
        every = [(int(c.rng.randint(3, 6)), np.inf, zoo.pick(c, "power", "exponential")) for _ in range(p)]
        par = every if zoo.flip(c) or sel == "All" else [every[i] for i in pick]
        used = [every[i] for i in pick]
        if h == 1 and len(par) == 1:
            used = par
    else:
        par = [(kk, zoo.pick(c, np.inf, 0.6), kinds[0])]
        used = par * h
    y = 1 + x.sum(1, keepdims=True) + c.rng.randn(n, 1) * 0.2
    frame = zoo.flip(c)
    nx = ["a", "b", "cc"]
    kw = dict(params=par, var_flag=var, slx_vars=flags, options={"maxiter": 5})
    given = [tuple(q) for q in par]
    if frame:
        args = (pd.DataFrame(y, columns=["yy"]), pd.DataFrame(x, columns=nx), pd.DataFrame(co, columns=["lon", "lat"]))
    else:
        args = (y, x, co)
        kw.update(name_x=list(nx), name_y="yy", name_coords=["lon", "lat"])
    keep = [np.array(q, float).copy() for q in args]
    try:
        with zoo.quiet():
            o = spreg.NSLX(*args, **kw)
    except Exception as e:
        if "Singular" in str(e):
            return
        raise
    for q, r in zip(args, keep):
        c.true("data unchanged", np.array_equal(np.array(q, float), r))
    c.true("parameters unchanged", [tuple(q) for q in par] == given)
    X = np.hstack([np.ones((n, 1)), x])
    b, al = np.asarray(o.betas, float).ravel()[:p + 1], np.asarray(o.betas, float).ravel()[p + 1:]
    c.true("one alpha per transformed variable", len(al) == h)
    cols, gr, ok = [], [], True
    with np.errstate(all="ignore"):
        for (k_, bd, kind), j, a in zip(used, pick, al):
            rows = brute(co, k_, bd, kind)
            D = np.zeros((n, n))
            P = np.zeros((n, n), bool)
            for i, (near, mx, f, d) in enumerate(rows):
                for v in near:
                    m = [q for q in range(n) if q != i and d[q] == v and not P[i, q]][0]
                    P[i, m], D[i, m] = True, f(v)
            Wa = np.where(P, np.exp(-a * D) if kind == "exponential" else D ** a, 0)
            S = np.where(P, -Wa * np.log(a * D) * D if kind == "exponential" else np.where(D > 0, Wa * np.log(np.where(D > 0, D, 1)), 0), 0)
            T = np.where(P, -Wa * D, 0) if kind == "exponential" else S
            cols.append(Wa @ x[:, j])
            gr.append((S @ x[:, j], T @ x[:, j]))
    tot = np.sum(cols, axis=0)[:, None]
    if not np.all(np.isfinite(tot)):
        return
    u = y - X @ b[:, None] - tot
    sc = np.abs(tot).max() + np.abs(y).max() + np.abs(X @ b[:, None]).max()
    c.eq("residuals of the stated model", o.u, u, tol=1e-7, scale=sc)
    c.eq("predicted values", o.predy, y - u, tol=1e-7, scale=sc)
    ss = float((u ** 2).sum())
    c.eq("sum of squares", o.utu, ss, tol=1e-7, scale=sc ** 2)
    c.eq("sig2", o.sig2, ss / n, tol=1e-7, scale=sc ** 2)
    ll = -n / 2 * (np.log(2 * np.pi) + np.log(float(np.ravel(o.utu)[0]) / n) + 1)
    c.eq("log likelihood", o.ll, ll, tol=1e-8)
    c.eq("AIC", o.aic, 2 * (p + 1 + h) + n * (np.log(2 * np.pi * float(np.ravel(o.utu)[0]) / n) + 1), tol=1e-8)
    c.eq("Schwarz", o.schwarz, (p + 1 + h) * np.log(n) + n * (np.log(2 * np.pi * float(np.ravel(o.utu)[0]) / n) + 1), tol=1e-8)
    c.true("names", o.name_x == ["CONSTANT"] + nx + ["W%s_%s" % (t[2][0], nx[j]) for t, j in zip(used, pick)])
    c.true("coordinates", list(o.name_coords) == ["lon", "lat"] and o.name_y == "yy")
    if np.isfinite(np.ravel(o.utu)[0]):
        for label, v in (("Sigma-square", o.sig2), ("Sum squared residual", o.utu), ("S.E. of regression", np.sqrt(o.sig2)), ("Log likelihood", o.ll),
                         ("Akaike info criterion", o.aic), ("Schwarz criterion", o.schwarz), ("Number of Observations", n), ("Number of Variables", p + 1 + h)):
            K.printed(c, o.summary, label, v)
    c.true("table rows", list(o.output["var_names"]) == o.name_x)
    c.eq("table of coefficients", np.asarray(o.output["coefficients"], float), np.asarray(o.betas, float).ravel())
    if var == 1:
        s2 = float(np.ravel(o.sig2)[0])
        c.eq("variance of the betas", o.vm[:p + 1, :p + 1], s2 * np.linalg.inv(X.T @ X), tol=1e-7)
        G = [np.column_stack([g[i] for g in gr]) for i in (0, 1)]
        if all(np.all(np.isfinite(q)) for q in G) and np.linalg.cond(G[0].T @ G[0]) < 1e9 and np.linalg.cond(G[1].T @ G[1]) < 1e9:
            v = [s2 * np.linalg.inv(q.T @ q) for q in G]
            K.either(c, "variance of the alphas from the gradient (right or as recorded)", o.vm[p + 1:, p + 1:], v[1], v[0], tol=1e-5)
