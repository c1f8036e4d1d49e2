"""C15: every data generating function returns the variable its model equation defines."""
import numpy as np

from ..engine import contract
from . import common as K
from . import zoo

REC = []


def stub_inverse(c, n):
    """callee contract of inverse_prod (C14): (I - rho W) v = data."""
    REC.clear()
    if c.symbolic:
        def ip(w, data, scalar, post_multiply=False, inv_method="power_exp", threshold=1e-10, max_iterations=None):
            REC.append((scalar, inv_method, post_multiply))
            A = c.eye(n) - scalar * c.wd(w)
            return data @ c.inv(A) if post_multiply else c.inv(A) @ data
        c.stub("utils:inverse_prod", ip)


def call(c, name, *a, **kw):
    with zoo.quiet():
        return c.func("dgp:" + name)(*a, **kw)


def base(c, kmax=3):
    n, k = c.dim("n", 8, 40), c.dim("k", 1, kmax)
    w = c.weights("W", n, "row")
    return n, k, w, c.wd(w), c.array("u", n, 1), c.array("xb", n, 1), c.array("wxg", n, 1)


def ybin(c, y, z):
    c.eq("binary: 1 exactly where the latent variable exceeds its mean", np.asarray(y), (np.asarray(z) > np.asarray(z).mean()) * 1.0)


# model -> does it take wxg, W, rho, lambda
MODELS = {"dgp_ols": "", "dgp_slx": "x", "dgp_sperror": "wl", "dgp_slxerror": "xwl", "dgp_lag": "wr", "dgp_spdurbin": "xwr", "dgp_lagerr": "wrl", "dgp_gns": "xwrl"}


def margs(c, name, u, xb, wxg, w, rho, lam, model, imethod):
    f = MODELS[name]
    a = [u, xb] + ([wxg] if "x" in f else []) + ([w] if "w" in f else [])
    kw = {}
    if "r" in f:
        kw["rho"] = rho
    if "l" in f:
        kw.update(lam=lam, model=model)
    if "w" in f:
        kw["imethod"] = imethod
    return a, kw


CASES = [dict(name=m, model=t, imethod=i) for m, f in MODELS.items() for t in (("sar", "ma") if "l" in f else ("sar",)) for i in (("power_exp", "true_inv") if "w" in f else ("power_exp",))]


@contract("C15", ["dgp:" + m for m in MODELS], cases=CASES, draws=5, note="inverse_prod: callee contract (C14)")
def equations(c, name, model, imethod):
    n, k, w, W, u, xb, wxg = base(c)
    stub_inverse(c, n)
    f = MODELS[name]
    rho, lam = c.scalar("rho", -0.9, 0.9), c.scalar("lam", -0.9, 0.9)
    a, kw = margs(c, name, u, xb, wxg, w, rho, lam, model, imethod)
    y = call(c, name, *a, **kw)
    c.structure(y is not None, "%s returns data" % name)
    mean = xb + wxg if "x" in f else xb
    A = c.eye(n) - rho * W if "r" in f else c.eye(n)
    ay = A @ y if "r" in f else y
    if "l" in f and model == "sar":
        B = c.eye(n) - lam * W
        c.eq("(I - lam W)((I - rho W) y - X b) = u", B @ (ay - mean), u, tol=1e-7, scale=1)
    elif "l" in f:
        c.eq("(I - rho W) y - X b = (I + lam W) u", ay - mean, u + lam * (W @ u), tol=1e-7, scale=1)
    else:
        c.eq("(I - rho W) y - X b = u", ay - mean, u, tol=1e-7, scale=1)
    if c.symbolic:
        c.structure(all(r[1] == imethod and not r[2] for r in REC), "inversion method passed on")
        c.structure(len(REC) == ("r" in f) + ("l" in f and model == "sar"), "one inverse per filter")
    c.frame_all("inputs unchanged")
    if not c.symbolic and name != "dgp_ols":
        ybin(c, call(c, name, *a, ybin=True, **kw), y)
    if not c.symbolic:
        defaults(c, name, w, W, u, xb, wxg)


def defaults(c, name, w, W, u, xb, wxg):
    """documented default parameters: rho=0.5; lam=0.5 (0.2 in models with both); model sar."""
    f = MODELS[name]
    a, _ = margs(c, name, u, xb, wxg, w, 0, 0, "sar", "power_exp")
    y = np.asarray(call(c, name, *a))
    n = len(u)
    v = np.asarray(u)
    if "l" in f:
        v = np.linalg.solve(np.eye(n) - (0.2 if "r" in f else 0.5) * W, v)
    v = v + xb + (wxg if "x" in f else 0)
    if "r" in f:
        v = np.linalg.solve(np.eye(n) - 0.5 * W, v)
    c.eq("default parameters", y, v, tol=1e-7, scale=1)


@contract("C15", ["dgp:dgp_errproc"], cases=[dict(model=t, imethod=i) for t in ("sar", "ma") for i in ("power_exp", "true_inv")], draws=5)
def errproc(c, model, imethod):
    n, k, w, W, u, xb, wxg = base(c)
    stub_inverse(c, n)
    lam = c.scalar("lam", -0.9, 0.9)
    y = call(c, "dgp_errproc", u, w, lam=lam, model=model, imethod=imethod)
    if model == "sar":
        c.eq("(I - lam W) v = u", (c.eye(n) - lam * W) @ y, u, tol=1e-8, scale=1)
    else:
        c.eq("v = (I + lam W) u", y, u + lam * (W @ u), tol=1e-9)
    if not c.symbolic:
        c.eq("default", call(c, "dgp_errproc", u, w), np.linalg.solve(np.eye(n) - 0.5 * W, u), tol=1e-7, scale=1)
    c.frame_all("inputs unchanged")


REFUSE = [dict(name=m, bad=b) for m, f in MODELS.items() for b in ["xb"] + (["wxg", "both"] if "x" in f else []) + (["w"] if "w" in f else []) + (["model"] if "l" in f else [])]


def refused(c, label, f):
    """either None (with a printed message) or an exception: no data."""
    try:
        with zoo.quiet():
            y = f()
    except Exception as e:
        if c.symbolic and type(e).__module__.startswith("vf"):
            raise
        y = None
    c.true(label, y is None)


@contract("C15", ["dgp:" + m for m in MODELS], cases=REFUSE, draws=3)
def refusals(c, name, bad):
    """any two different sizes, any model name other than sar/ma."""
    n, m = c.dim("n", 8, 20), c.dim("m", 8, 20)
    if c.symbolic:
        c.assume(n != m)
    elif zoo.flip(c, 0.3):
        m = 1                                       # a size numpy would broadcast
    c.assume(n != m)
    stub_inverse(c, n)
    f = MODELS[name]
    w = c.weights("W", n, "row") if bad != "w" else c.weights("W", m if c.symbolic or m > 1 else n + 1, "row")
    u = c.array("u", n, 1)
    xb = c.array("xb", m if bad in ("xb", "both") else n, 1)
    wxg = c.array("wxg", m if bad in ("wxg", "both") else n, 1)
    a, kw = margs(c, name, u, xb, wxg, w, c.scalar("rho", -0.9, 0.9), c.scalar("lam", -0.9, 0.9), "other" if bad == "model" else "sar", "power_exp")
    refused(c, "no data", lambda: c.func("dgp:" + name)(*a, **kw))


@contract("C15", ["dgp:dgp_errproc", "dgp:make_wx", "dgp:make_heterror"], cases=[dict(what=w) for w in ("errproc", "wx", "het", "model")], draws=3)
def refusals2(c, what):
    n, m = c.dim("n", 8, 20), c.dim("m", 8, 20)
    c.assume(n != m)
    stub_inverse(c, n)
    w = c.weights("W", n, "row")
    u, x = c.array("u", m, 1), c.array("x", m, 2)
    if what == "errproc":
        refused(c, "no data", lambda: c.func("dgp:dgp_errproc")(u, w))
    elif what == "model":
        refused(c, "no data", lambda: c.func("dgp:dgp_errproc")(c.array("v", n, 1), w, model="car"))
    elif what == "wx":
        refused(c, "no data", lambda: c.func("dgp:make_wx")(x, w))
    else:
        v = c.array("v", n, 1, positive=True)
        refused(c, "no data", lambda: c.func("dgp:make_heterror")(u, v))
        if not c.symbolic:
            refused(c, "no data (one multiplier)", lambda: c.func("dgp:make_heterror")(u, v[:1]))


@contract("C15", ["dgp:make_wx"], cases=[dict(o=o) for o in (1, 2, 3, 4)], draws=4)
def wx(c, o):
    n, k = c.dim("n", 8, 40), c.dim("k", 1, 4)
    w, x = c.weights("W", n, "gen"), c.array("x", n, k)
    W = c.wd(w)
    v = call(c, "make_wx", x, w, o=o)
    want, t = [], x
    for _ in range(o):
        t = W @ t
        want.append(t)
    c.eq("columns are W x, W^2 x, ...", v, c.np.hstack(want))
    c.frame_all("inputs unchanged")


@contract("C15", ["dgp:make_xb", "dgp:make_wxg"], cases=[dict(k=k) for k in (1, 2, 3)], draws=4)
def xb(c, k):
    n = c.dim("n", 8, 40)
    x = c.array("x", n, k)
    b = [c.scalar("b%d" % i, -3, 3) for i in range(k + 1)]
    want = b[0] * c.ones(n, 1)
    for i in range(k):
        want = want + b[i + 1] * x[:, i:i + 1]
    c.eq("X b with a leading constant", call(c, "make_xb", x, list(b)), want)
    g = call(c, "make_wxg", x, b[1:] if k > 1 else b[1])
    c.eq("WX gamma", g, want - b[0] * c.ones(n, 1))
    if not c.symbolic:
        if k == 1:
            c.eq("one coefficient as a list", call(c, "make_wxg", x, b[1:]), g)
        for bb in (b[:-1], b + [1.0]):
            refused(c, "make_xb: wrong number of coefficients", lambda: c.func("dgp:make_xb")(x, bb))
        if k > 1:
            for gg in (b, b[1:-1], [2.0]):
                refused(c, "make_wxg: wrong number of coefficients", lambda: c.func("dgp:make_wxg")(x, gg))
    c.frame_all("inputs unchanged")


@contract("C15", ["dgp:make_heterror"], draws=4)
def heterror(c):
    n = c.dim("n", 8, 40)
    u, v = c.array("u", n, 1), c.array("v", n, 1, positive=True)
    h = call(c, "make_heterror", u, v)
    c.eq("h = u sqrt(v)", h, u * c.np.sqrt(v))
    c.frame_all("inputs unchanged")


class Recorder:
    """stand-in for numpy.random.Generator: records the distribution asked for, returns arbitrary numbers."""

    def __init__(self, c, n):
        self.c, self.n, self.calls = c, n, []

    def _d(self, what, kw):
        self.calls.append((what, kw))
        return self.c.array("draw%d" % len(self.calls), self.n)

    def normal(self, **kw):
        return self._d("normal", kw)

    def laplace(self, **kw):
        return self._d("laplace", kw)

    def standard_cauchy(self, **kw):
        return self._d("cauchy", kw)

    def lognormal(self, **kw):
        return self._d("lognormal", kw)

    def uniform(self, **kw):
        return self._d("uniform", kw)


ERR = {"normal": ("loc", "scale", 1), "laplace": ("loc", "scale", 2), "lognormal": ("mean", "sigma", 1), "cauchy": (None, None, 1)}


@contract("C15", ["dgp:make_error"], cases=[dict(method=m) for m in ERR], num=False, note="rng: records the requested distribution and returns arbitrary draws")
def error_dist(c, method):
    n = c.dim("n")
    mu, var = c.scalar("mu"), c.array("v", 1, 1, positive=True)[0, 0]
    r = Recorder(c, n)
    u = c.func("dgp:make_error")(r, n, mu, var, method)
    c.structure(len(r.calls) == 1 and r.calls[0][0] == method, "one draw from %s" % method)
    kw = r.calls[0][1]
    loc, sc, div = ERR[method]
    c.eq("size", kw["size"], n)
    if loc:
        c.eq("location", kw[loc], mu)
        c.eq("variance", kw[sc] ** 2 * div, var)
    c.eq("u is the draw as a column", u, c.inputs["draw1"].reshape((n, 1)))


@contract("C15", ["dgp:make_error", "dgp:make_x"], sym=False, draws=3, bounded="seeded generators")
def draws(c):
    """the generators consume the random numbers of the distribution they name: same seed, same numbers."""
    n = c.rng.randint(5, 60)
    s = int(c.rng.randint(1 << 30))
    mu, var = float(c.rng.uniform(-2, 2)), float(c.rng.uniform(0.2, 4))
    g = lambda: np.random.default_rng(s)
    e = c.func("dgp:make_error")
    col = lambda v: v.reshape(-1, 1)
    c.eq("default: standard normal", e(g(), n), col(g().normal(size=n)))
    c.eq("normal", e(g(), n, mu, var), col(g().normal(mu, np.sqrt(var), n)))
    c.eq("laplace: variance 2 scale^2", e(g(), n, mu, var, "laplace"), col(g().laplace(mu, np.sqrt(var / 2), n)))
    c.eq("cauchy", e(g(), n, mu, var, "cauchy"), col(g().standard_cauchy(n)))
    c.eq("lognormal", e(g(), n, mu, var, "lognormal"), col(g().lognormal(mu, np.sqrt(var), n)))
    refused(c, "unsupported distribution", lambda: e(g(), n, mu, var, "poisson"))
    x = c.func("dgp:make_x")
    k = int(c.rng.randint(1, 4))
    mus, vs = [float(v) for v in c.rng.uniform(-2, 2, k)], [float(v) for v in c.rng.uniform(0.2, 4, k)]
    r = g()
    c.eq("uniform on (0, sqrt(12 var))", x(g(), n, mus, vs), np.column_stack([r.uniform(0, np.sqrt(12 * v), n) for v in vs]))
    r = g()
    c.eq("independent normals", x(g(), n, mus, vs, method="normal"), np.column_stack([r.normal(m, np.sqrt(v), n) for m, v in zip(mus, vs)]))
    c.eq("defaults", x(g(), n), col(g().uniform(0, np.sqrt(12), n)))
    m2, v2, cor = mus[:1] + [0.5], vs[:1] + [2.0], 0.4
    s12 = cor * np.sqrt(v2[0] * v2[1])
    c.eq("bivariate normal", x(g(), n, m2, v2, cor, "bivnormal"), g().multivariate_normal(m2, [[v2[0], s12], [s12, v2[1]]], n))
    refused(c, "bivariate normal needs two variables", lambda: x(g(), n, [0.0] * 3, [1.0] * 3, cor, "bivnormal"))
    refused(c, "lengths of mu and var differ", lambda: x(g(), n, [0.0] * 3, [1.0] * 2))


@contract("C15", ["dgp:make_x"], cases=[dict(method=m) for m in ("uniform", "normal")], num=False)
def x_dist(c, method):
    n, k = c.dim("n"), 2
    mu = [c.scalar("m%d" % i) for i in range(k)]
    var = [c.array("v%d" % i, 1, 1, positive=True)[0, 0] for i in range(k)]
    r = Recorder(c, n)
    x = c.func("dgp:make_x")(r, n, mu, var, method=method)
    c.structure(len(r.calls) == k and all(q[0] == method for q in r.calls), "one draw per column")
    for i in range(k):
        kw = r.calls[i][1]
        c.eq("column is the draw", x[:, i:i + 1], c.inputs["draw%d" % (i + 1)].reshape((n, 1)))
        if method == "normal":
            c.eq("mean", kw["loc"], mu[i])
            c.eq("variance", kw["scale"] ** 2, var[i])
        else:
            c.eq("lower end", kw["low"], 0)
            c.eq("variance = range^2/12", kw["high"] ** 2 / 12, var[i])


@contract("C15", ["dgp:make_bin", "dgp:dgp_probit", "dgp:dgp_mess", "dgp:make_vmult"], sym=False, draws=6, bounded="random data n<=40")
def others(c):
    n, k, w, W, u, xb, wxg = base(c)
    z = c.array("z", n, 1)
    ybin(c, call(c, "make_bin", z), z)
    const = np.full((n, 1), 3.0)
    ybin(c, call(c, "make_bin", const), const)
    ybin(c, call(c, "dgp_probit", u, xb), u + xb)
    refused(c, "probit: sizes", lambda: c.func("dgp:dgp_probit")(u, xb[:1]))
    # matrix exponential spatial specification: exp(alpha W) y = X b + u with alpha = log(1 - rho)
    rho = c.scalar("rho", -1.5, 0.95)
    y = call(c, "dgp_mess", u, xb, w, rho=rho)
    t, s = y, y
    for i in range(1, 60):
        t = np.log(1 - rho) * (W @ t) / i
        s = s + t
    c.eq("mess: exp(alpha W) y = X b + u", s, xb + u, tol=1e-7, scale=1)
    refused(c, "mess: sizes", lambda: c.func("dgp:dgp_mess")(u, xb[:1], w))
    refused(c, "mess: weights", lambda: c.func("dgp:dgp_mess")(u[:-1], xb[:-1], w))
    v = call(c, "make_vmult", n)
    c.eq("linear multipliers (default 1 to 4)", v, np.linspace(1, 4, n).reshape(-1, 1))
    lo, hi = float(c.rng.uniform(0.1, 2)), float(c.rng.uniform(3, 9))
    c.eq("linear multipliers", call(c, "make_vmult", n, "linear", [lo], [hi]), np.linspace(lo, hi, n).reshape(-1, 1))
    s = int(c.rng.randint(1 << 30))
    c.eq("uniform multipliers", call(c, "make_vmult", n, "uniform", [lo], [hi], np.random.default_rng(s)), np.random.default_rng(s).uniform(lo, hi, n).reshape(-1, 1))
    a = int(c.rng.randint(1, n - 1))
    c.eq("group multipliers", call(c, "make_vmult", n, "group", [a, n - a], [lo, hi]), np.array([lo] * a + [hi] * (n - a)).reshape(-1, 1))
    refused(c, "uniform without generator", lambda: c.func("dgp:make_vmult")(n, "uniform", [lo], [hi]))
    refused(c, "groups do not add up", lambda: c.func("dgp:make_vmult")(n, "group", [a, n - a + 1], [lo, hi]))
    refused(c, "number of groups", lambda: c.func("dgp:make_vmult")(n, "group", [a, n - a], [lo]))
    refused(c, "unknown method", lambda: c.func("dgp:make_vmult")(n, "exponential"))
    c.frame_all("inputs unchanged")


@contract("C15", ["dgp:dgp_mess"], draws=3, note="trusted: scipy.linalg.expm is the matrix exponential")
def mess(c):
    """y = exp(-alpha W)(X b + u) with alpha = log(1 - rho), for every W, rho and number of observations."""
    n = c.dim("n", 5, 25)
    u, xb = c.array("u", n, 1), c.array("xb", n, 1)
    w = c.weights("W", n, "row")
    W = c.wd(w)
    rho = c.scalar("rho", -1.5, 0.9)
    if not c.symbolic:
        from scipy.linalg import expm
        c.eq("mess", c.func("dgp:dgp_mess")(u, xb, w, rho), expm(-np.log(1 - rho) * W) @ (xb + u), tol=1e-7, scale=1)
        c.frame_all("inputs unchanged")
        return
    E, got = c.array("E", n, n), []

    def expm(a):
        got.append(a)
        return E
    c.stub("dgp:expm", expm)
    y = c.func("dgp:dgp_mess")(u, xb, w, rho)
    c.structure(len(got) == 1, "not one matrix exponential")
    c.eq("exponent", got[0], c.dense(W) * (-c.np.log(1 - rho)))
    c.eq("y = exp(-alpha W)(X b + u)", y, E @ (xb + u))
    c.frame("inputs unchanged", u, xb)
