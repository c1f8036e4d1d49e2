"""C27: the GM moment optimiser: criterion, bounds, hard bounds."""
import numpy as np

from ..engine import contract
from ..terms import EngineError
from . import common as K
from . import zoo

U = "utils:"
SIZES = [dict(m=2, p=2, q=1), dict(m=3, p=3, q=2), dict(m=6, p=4, q=3)]       # equations, columns of G, parameters


def powers(c, p, par):
    """(lambda, lambda^2 [, sigma2 [, sigma2_1]])'"""
    return c.np.array([[v] for v in ([par[0], par[0] * par[0]] + list(par[1:]))][:p])


def system(c, m, p):
    if c.symbolic:
        return c.array("G", m, p, style="plain"), c.array("g", m, 1, style="plain")
    style = c.rng.randint(3)
    G = c.array("G", m, p, style="plain")
    if style == 0:                                  # moments of arbitrary numbers
        g = c.array("g", m, 1, style="plain")
    else:                                           # (nearly) consistent moments with an interior or an outside solution
        lam = float(c.rng.uniform(-0.9, 0.9) if style == 1 else c.rng.choice([-1.6, 1.4]))
        s = [float(v) for v in c.rng.uniform(0.5, 3, p - 2)]
        g = G @ np.array([[lam, lam * lam] + s]).T + 0.05 * c.rng.randn(m, 1)
        c.inputs["g"], c.copies["g"] = g, g.copy()
    return G, g


def point(c, q, i):
    return [c.scalar("lam%d" % i, -0.99, 0.99)] + [c.scalar("s%d_%d" % (j, i), 0.01, 4) for j in range(1, q)]


@contract("C27", [U + "foptim_par"], cases=SIZES, draws=8)
def criterion(c, m, p, q):
    """the squared norm of the moment residuals."""
    G, g = system(c, m, p)
    par = powers(c, p, point(c, q, 0))
    r = g - G @ par
    c.eq("criterion", c.func(U + "foptim_par")(par, [G, g]), r.T @ r)
    c.frame("moments unchanged", G, g)


class _Op:
    def __init__(self, out):
        self.calls, self.out = [], out

    def fmin_l_bfgs_b(self, f, x0, **kw):
        self.calls.append((f, x0, kw))
        return self.out, 0.0, {}


def spy(c, calls):
    """record the calls of the real optimiser."""
    import scipy.optimize as real
    mod = c.mod("utils")

    class Op:
        def __getattr__(self, k):
            return getattr(real, k)

        @staticmethod
        def fmin_l_bfgs_b(f, x0, **kw):
            r = real.fmin_l_bfgs_b(f, x0, **kw)
            calls.append((f, x0, kw, r))
            return r
    return mod, Op()


class patched:
    def __init__(self, mod, name, val):
        self.mod, self.name, self.val = mod, name, val

    def __enter__(self):
        self.old = getattr(self.mod, self.name)
        setattr(self.mod, self.name, self.val)

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.old)


def bounds_ok(c, kw, q):
    b = kw.get("bounds")
    c.true("bounds of every parameter", b is not None and len(b) == q)
    c.eq("bounds of the spatial parameter", np.array(b[0], float), np.array([-0.99, 0.99]))
    for v in b[1:]:
        c.true("variances are not negative, and not bounded above", v[0] == 0 and v[1] is None)


@contract("C27", [U + "optim_moments"], cases=[dict(s, weighted=w) for s in SIZES for w in (False, True)], draws=8,
          note="scipy.optimize.fmin_l_bfgs_b trusted: called with the objective and bounds of the contract")
def objective(c, m, p, q, weighted):
    """the function handed to the optimiser is the (weighted) criterion times a factor that does not depend on the parameters, over
    the stated bounds, and the value returned is the one the optimiser found."""
    G, g = system(c, m, p)
    V, C, seen = None, None, []
    if c.symbolic:
        res = [c.scalar("res%d" % i) for i in range(q)]
        op = _Op(res)
        c.stub("utils:op", op)
        if weighted:
            V = c.array("V", m, m, symmetric=True)
            C = c.np.linalg.cholesky(c.inv(V))          # the Cholesky factor: an (opaque) function of its argument
            c.assume(V.any())
            c.stub("utils:foptim_par", lambda par, mo: seen.append((par, mo)) or c.scalar("crit"))
        calls = op.calls
    else:
        if weighted:
            V = c.array("V", m, m)
            V = V @ V.T + np.eye(m) * 0.3
            if c.rng.rand() < 0.3:                      # moments that are not correlated, all or some
                V = V * (np.eye(m) if c.rng.rand() < 0.6 else np.kron(np.eye(m), np.ones((m, m)))[:m, :m] * (np.add.outer(range(m), range(m)) % 2 == 0))
            c.inputs["V"], c.copies["V"] = V, V.copy()
            C = np.linalg.cholesky(np.linalg.inv(V))
        calls = []
    f = c.func(U + "optim_moments")
    start = [0.1] + [1.5] * (q - 1) if p == 4 else None
    kw = dict(vcX=V) if weighted else {}
    if start:
        kw["start"] = start

    def Q(par):
        r = g - G @ powers(c, p, par)
        if weighted:
            r = C.T @ r
        return (r.T @ r)[0, 0]

    def value(fn, par):
        v = fn(par)
        return v[0] if getattr(v, "shape", ()) else v
    if c.symbolic:
        one = f([G, g], **kw)
        every = f([G, g], all_par=True, **kw)
        if weighted and not calls:
            return
        c.structure(len(calls) == 2, "one optimisation per call")
        c.eq("the first parameter is returned", one, res[0])
        for i in range(q):
            c.eq("all parameters are returned", every[i], res[i])
        for fn, x0, k in calls:
            bounds_ok(c, k, q)
            c.true("starts inside the bounds", len(x0) == q and abs(x0[0]) <= 0.99 and all(v >= 0 for v in x0[1:]))
            if start:
                c.true("the start given is used", list(x0) == start)
            a, b = point(c, q, 0), point(c, q, 1)
            if not weighted:
                c.eq("proportional to the criterion", value(fn, a) * Q(b), value(fn, b) * Q(a))
                continue
            # with weights: the criterion (contract `criterion`) of the moments C'G, C'g times one common factor
            seen.clear()
            value(fn, a)
            c.structure(len(seen) == 1, "the objective is one call of foptim_par")
            par, mo = seen[0]
            c.eq("the criterion is taken at the powers of the parameters", par, powers(c, p, a))
            wG, wg = C.T @ G, C.T @ g
            for i in range(m):
                for j in range(p):
                    c.eq("weighted moments times one factor", mo[0][i, j] * wG[0, 0], mo[0][0, 0] * wG[i, j])
                c.eq("weighted moments times one factor (left side)", mo[1][i, 0] * wG[0, 0], mo[0][0, 0] * wg[i, 0])
        c.frame("moments unchanged", G, g)
        return
    mod, op = spy(c, calls)
    with zoo.quiet(), patched(mod, "op", op):
        one = f([G, g], **kw)
        every = np.asarray(f([G, g], all_par=True, **kw))
    c.true("all parameters are returned", every.shape == (q,))
    c.eq("the first parameter is returned", one, every[0])
    for fn, x0, k, r in calls:
        bounds_ok(c, k, q)
        if start:
            c.true("the start given is used", list(x0) == start)
        vals = [(float(np.ravel(value(fn, a))[0]), Q(a)) for a in (point(c, q, i) for i in range(4))]
        for x, y in zip(vals, vals[1:]):
            c.eq("proportional to the criterion", x[0] * y[1], y[0] * x[1], tol=1e-6)
        c.true("the criterion is minimised, not maximised", all(v[0] >= 0 for v in vals))
    solution(c, [G, g], Q, every, q, calls[0][1])
    c.frame_all("moments unchanged")


def solution(c, M, Q, every, q, x0):
    """the parameters returned lie in the bounds and give a criterion not larger than at the start or nearby."""
    c.true("within the bounds", -0.99 - 1e-12 <= every[0] <= 0.99 + 1e-12 and all(v >= -1e-12 for v in every[1:]))
    best, size = Q(list(every)), Q([0.0] + [1.0] * (q - 1)) + abs(M[1]).max() ** 2 * 1e-3
    c.true("not worse than the start", best <= Q(list(x0)) * (1 + 1e-9) + 1e-9 * size)
    if not near(Q, every, q, size, best):
        c.fail("not worse than nearby admissible values", "Q=%r at %r" % (best, every))


def near(Q, every, q, size, best):
    for d in (0.02, 0.05, 0.1):
        for j in range(q):
            for sg in (-1, 1):
                z = [float(v) for v in every]
                z[j] += sg * d * (1 if j == 0 else max(1.0, z[j]))
                z[0] = min(max(z[0], -0.99), 0.99)
                if any(v < 0 for v in z[1:]):
                    continue
                if Q(z) < best - 1e-3 * size - 1e-3 * best:
                    return False
    return True


def moments_of(c, kind):
    """a moment system from data: (moments, covariance of the moments or None)"""
    import spreg.error_sp as E
    import spreg.error_sp_hom as EH
    import spreg.utils as UT
    n = int(c.rng.randint(40, 120))
    from ..engine import make_weights
    w = make_weights(c.rng, n, "row").sparse
    lam = float(c.rng.uniform(-0.8, 0.8))
    x = np.hstack([np.ones((n, 1)), c.rng.randn(n, 1)])
    u = np.linalg.solve(np.eye(n) - lam * w.toarray(), c.rng.randn(n, 1) * c.rng.choice([0.01, 1, 50]))
    u = u - x @ np.linalg.solve(x.T @ x, x.T @ u)
    if kind == "kp98":
        return E._momentsGM_Error(w, u), 3, 2, lam
    if kind == "het":
        return UT._moments2eqs(UT.get_A1_het(w), w, u), 2, 1, lam
    return EH.moments_hom(w, UT.get_A1_hom(w), UT.get_A2_hom(w), u), 2, 1, lam


@contract("C27", [U + "optim_moments"], cases=[dict(kind="kp98", weighted=False)] + [dict(kind=k, weighted=w) for k in ("het", "hom") for w in (False, True)], sym=False, draws=6,
          bounded="moment systems of random spatial errors, n up to 120")
def from_data(c, kind, weighted):
    """with moments of real residuals: in bounds, not worse than any value of a grid over the bounds, and unaffected by the units."""
    M, m, q, lam = moments_of(c, kind)
    M = [np.asarray(v, float) for v in M]
    V = None
    if weighted:
        V = c.rng.randn(m, m)
        V = V @ V.T + np.eye(m) * 0.3
    kw = dict(vcX=V) if weighted else {}
    C = np.linalg.cholesky(np.linalg.inv(V)) if weighted else np.eye(m)
    p = M[0].shape[1]

    def Q(par, M=M):
        r = C.T @ (M[1] - M[0] @ powers(c, p, par))
        return float((r * r).sum())
    f = c.func(U + "optim_moments")
    before = [v.copy() for v in M]
    with zoo.quiet():
        best = np.asarray(f(M, all_par=True, **kw))
    c.true("moments unchanged", all(np.array_equal(a, b) for a, b in zip(M, before)))
    size = float(((C.T @ M[1]) ** 2).sum())
    b = Q(list(best))
    c.true("within the bounds", -0.99 - 1e-12 <= best[0] <= 0.99 + 1e-12 and all(v >= -1e-12 for v in best[1:]))
    if q == 1:
        grid = [Q([v]) for v in np.linspace(-0.99, 0.99, 199)]
        g0 = np.linspace(-0.99, 0.99, 199)
        # descent from the start ends in the local minimum of the start's basin
        lo = hi = 99
        while lo > 0 and grid[lo - 1] < grid[lo]:
            lo -= 1
        while hi < 198 and grid[hi + 1] < grid[hi]:
            hi += 1
        c.true("not worse than the grid around the start", b <= max(grid[lo], grid[hi]) + 1e-4 * size)
        c.true("not worse than nearby admissible values", near(Q, best, 1, size * 1e-2, b))
    else:
        s = [float(np.linalg.lstsq(C.T @ M[0][:, 2:], C.T @ (M[1] - M[0][:, :2] @ np.array([[v], [v * v]])), rcond=None)[0][0, 0]) for v in np.linspace(-0.9, 0.9, 37)]
        c.true("not worse than the start", b <= Q([0.0, 1.0]) + 1e-9 * size)
    for k in (2.0 ** -10, 8.0, 2.0 ** 13):
        with zoo.quiet():
            other = np.asarray(f([M[0] * k, M[1] * k], all_par=True, **kw))
        c.true("scaling the moments does not change the minimiser", abs(Q(list(other)) - b) <= 1e-3 * size)


@contract("C27", [U + "optim_moments"], cases=[dict(s) for s in SIZES], draws=4)
def hard(c, m, p, q):
    """hard_bound: refused exactly when the parameter found is at or beyond the bound."""
    G, g = system(c, m, p)
    f = c.func(U + "optim_moments")
    lam = c.scalar("found", -0.99, 0.99)
    if c.symbolic:
        res = [lam] + [c.scalar("res%d" % i) for i in range(1, q)]
        c.stub("utils:op", _Op(res))
        run = lambda **k: f([G, g], **k)
    else:
        if zoo.flip(c):
            lam = zoo.pick(c, -0.99, 0.99, 0.98999, -0.9899)
        res = np.array([lam] + [1.0] * (q - 1))
        mod = c.mod("utils")

        def run(**k):
            with zoo.quiet(), patched(mod, "op", _Op(res)):
                return f([G, g], **k)
    c.eq("returned without hard bounds", run(), lam)
    try:
        r = run(hard_bound=True)
    except EngineError:
        raise
    except Exception:
        c.ge0("refused only at the bound", abs(lam) - 0.99)
        return
    c.eq("returned inside the bounds", r, lam)
    c.ge0("not returned beyond the bound", 0.99 - abs(lam))
    if not c.symbolic:
        c.true("not returned at the bound", abs(lam) < 0.99)


HB = ["GM_Lag", "GM_Lag_Regimes", "GM_Error", "GM_Endog_Error", "GM_Combo", "GMM_Error"] + \
     ["GM_%s_%s%s" % (a, b, r) for b in ("Het", "Hom") for a in ("Error", "Endog_Error", "Combo") for r in ("", "_Regimes")]


def strong(c, kind, d, where):
    """responses generated with a spatial parameter outside the bounds."""
    n = d.n
    rho, lam = {"lag": (1.35, 0.2), "error": (0.2, c.rng.choice([0.985, 1.1, 1.3])), "both": (1.3, 0.985), "none": (0.3, 0.2)}[where]
    W = d.W
    e = np.linalg.solve(np.eye(n) - lam * W, c.rng.randn(n, 1) * 0.3)
    xb = 1 + d.x.sum(1, keepdims=True) * 2
    if d.yend is not None:
        xb = xb + 0.2 * d.yend
    lagged = "Lag" in kind or "Combo" in kind
    d.y = np.linalg.solve(np.eye(n) - rho * W, xb + e) if lagged else xb + e
    return d.y


@contract("C27", ["error_sp:GM_Combo.__init__", "error_sp:GM_Error.__init__", "error_sp:GM_Endog_Error.__init__", "error_sp_het:BaseGM_Error_Het.__init__",
                  "error_sp_het:BaseGM_Endog_Error_Het.__init__", "error_sp_hom:GM_Combo_Hom.__init__", "twosls_sp:GM_Lag.__init__", "utils:sp_att",
                  "error_sp:GMM_Error.__init__"],
          cases=[dict(kind=k, where=w) for k in HB for w in ("lag", "error", "none")], sym=False, draws=3, timeout=120,
          bounded="random data, spatial parameters inside and outside the bounds")
def refused(c, kind, where):
    """hard_bound=True refuses exactly the fits whose spatial parameters are out of bounds; without it they are reported with a warning
    (lag coefficients everywhere, error parameters of the heteroskedastic estimators)."""
    import spreg
    from spreg import utils as UT
    name, d, kw = zoo.cross_args(c, kind)
    if "y" in kw:
        kw["y"] = strong(c, kind, d, where)
    kw.pop("hard_bound", None)
    vals = []
    real = c.func(U + "optim_moments")

    def watch(*a, **k):
        # the values found before a refusal are recorded too
        v = real(*a, **{**k, "hard_bound": False})
        vals.append(float(np.ravel(v)[0]))
        return real(*a, **k)
    import spreg.error_sp as E
    import spreg.error_sp_hom as EH
    import spreg.error_sp_regimes as ER
    import spreg.error_sp_hom_regimes as EHR
    try:
        with zoo.quiet():
            o = zoo.build(c, name, kw)
    except Exception as e:
        c.ok("not estimable: %s" % type(e).__name__)
        return
    pars = reported(o, kind)
    out = any(abs(v) >= (0.99 if t == "lambda" else 1) for t, v in pars)
    mods = [m for m in (UT, E, EH, ER, EHR) if hasattr(m, "optim_moments")]
    olds = [m.optim_moments for m in mods]
    for m in mods:
        m.optim_moments = watch
    try:
        try:
            with zoo.quiet():
                zoo.build(c, name, dict(kw, hard_bound=True))
            refusal = None
        except Exception as e:
            refusal = e
    finally:
        for m, v in zip(mods, olds):
            m.optim_moments = v
    c.true("hard_bound refuses parameters out of bounds", not out or refusal is not None)
    if refusal is not None:
        c.true("the refusal names the bounds", "bound" in str(refusal))
        c.true("hard_bound refuses nothing inside the bounds", out or any(abs(v) >= 0.99 for v in vals))
    text = getattr(o, "warning", "") or ""
    for q in getattr(o, "multi", {}).values():
        text += getattr(q, "warning", "") or ""
    lag_out = any(abs(v) >= 1 for t, v in pars if t == "rho")
    c.true("a lag coefficient out of bounds is reported with a warning", not lag_out or "outside the boundary" in text)
    c.true("no such warning inside the bounds", lag_out or "Estimate for spatial lag coefficient is outside" not in text)
    if "_Het" in kind and not kind.endswith("_Regimes") or kind == "GMM_Error" and kw.get("estimator", "het") == "het" and kw.get("regimes") is None:
        lo = any(abs(v) >= 0.99 for t, v in pars if t == "lambda")
        c.true("an error parameter out of bounds is reported with a warning", lo == ("Spatial error parameter was outside" in text))


def reported(o, kind):
    """[("rho"|"lambda", value)] of the model or of each regime's model."""
    rs = list(o.multi.values()) if getattr(o, "multi", None) else [o]
    out = []
    for r in rs:
        b = np.ravel(np.asarray(r.betas, float))
        nm = type(o).__name__
        err = "Error" in nm or "Combo" in nm
        if nm == "GM_Lag_Regimes" and r is o:                      # one lag coefficient, or one of each regime
            out += [("rho", float(v)) for v, q in zip(o.output["coefficients"], o.output["var_names"]) if str(q).endswith("W_" + str(o.name_y))]
        elif hasattr(r, "rho"):
            out.append(("rho", float(np.ravel(r.rho)[0])))
        if err:
            out.append(("lambda", float(b[-1])))
    return out


@contract("C27", ["error_sp_het:BaseGM_Combo_Het.__init__", "error_sp_het:GM_Combo_Het.__init__"], cases=[dict(kind="GM_Combo_Het")], sym=False, draws=4,
          bounded="random data with an explosive lag coefficient")
def clipped(c, kind):
    """a lag coefficient that the data put out of bounds is reported with a warning also by the heteroskedastic combo model."""
    name, d, kw = zoo.cross_args(c, kind)
    kw["y"] = strong(c, kind, d, "lag")
    kw.pop("hard_bound", None)
    with zoo.quiet():
        o = zoo.build(c, name, kw)
    (t, rho), lam = reported(o, kind)
    c.true("a trimmed lag coefficient is reported with a warning", abs(rho) != 0.9 or "outside the boundary" in (getattr(o, "warning", "") or ""))
