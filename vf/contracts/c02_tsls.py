"""C02: two stage least squares."""
from ..engine import contract
from . import common as K
from . import zoo


def tsls_post(c, o, y, z, h, n, robust=None, sig2n_k=False, gwk=None, who="2sls"):
    hthi = c.inv(h.T @ h)
    zph = z.T @ h @ hthi @ h.T
    b = o.betas
    e = y - z @ b
    k = z.shape[1]
    c.eq(who + ": Z'H(H'H)^-1H'(y - Zb) = 0", zph @ e, c.np.zeros((k, 1)), scale=1e3)
    c.eq(who + ": predy = Zb", o.predy, z @ b)
    c.eq(who + ": u = y - Zb", o.u, e)
    c.eq(who + ": n", o.n, n)
    c.eq(who + ": k", o.k, k)
    A = c.inv(zph @ z)
    c.eq(who + ": varb", o.varb, A)
    c.eq(who + ": sig2n", o.sig2n, (e.T @ e)[0, 0] / n)
    c.eq(who + ": sig2n_k", o.sig2n_k, (e.T @ e)[0, 0] / (n - k))
    c.eq(who + ": sig2", o.sig2, (e.T @ e)[0, 0] / ((n - k) if sig2n_k else n))
    c.eq(who + ": hth", o.hth, h.T @ h)
    c.eq(who + ": hthi", o.hthi, hthi)
    c.eq(who + ": htz", o.htz, h.T @ z)
    c.eq(who + ": zthhthi", o.zthhthi, z.T @ h @ hthi)
    c.eq(who + ": mean_y", o.mean_y, y.sum() / n)
    if robust is None:
        c.eq(who + ": vm = sig2 (Z'PZ)^-1", o.vm, A * o.sig2)
    else:
        hu = h * e
        if robust == "white":
            meat = hu.T @ hu
            if sig2n_k:
                meat = meat * (n / (n - k))
        else:
            meat = hu.T @ (c.wd(gwk) @ hu)
        B = A @ (z.T @ h @ hthi)
        c.eq(who + ": vm is the %s sandwich" % robust, o.vm, B @ meat @ B.T)
    c.eq(who + ": pfora1a2", o.pfora1a2, (hthi @ h.T @ z @ A) * n)


@contract("C02", ["twosls:BaseTSLS.__init__", "twosls:BaseTSLS.vm", "twosls:BaseTSLS.pfora1a2", "robust:robust_vm", "sputils:spdot",
                  "sputils:sphstack", "sputils:spbroadcast", "utils:RegressionPropsVM.sig2n", "utils:RegressionPropsVM.sig2n_k"],
          cases=[dict(robust=r, sig2n_k=s, form=f) for r in (None, "white", "hac") for s in (True, False) for f in ("q", "h")],
          draws=6)
def base_tsls(c, robust, sig2n_k, form):
    n = c.dim("n", 25, 60)
    k, ke, kq = c.dim("k", 1, 3), c.dim("ke", 1, 2), c.dim("kq", 2, 4)
    c.assume(kq >= ke)
    c.assume(n > k + ke + kq + 3)
    y, x = c.array("y", n, 1), c.array("x", n, k, maybe_constant=True)
    yend, q = c.array("yend", n, ke), c.array("q", n, kq)
    if not c.symbolic:
        c.assume(_well(c, x, yend, q))
    gwk = K.kernel_weights(c, "G", n) if robust == "hac" else None
    if c.symbolic:
        # callee contract: sphstack(a, b) = [a b].  The matrices it returns are generalised to arbitrary Z and H.
        kz, kh = c.dim("kz", 2, 5), c.dim("kh", 2, 7)
        c.assume(n > kz + 1)
        z, h = c.array("Z", n, kz), c.array("H", n, kh)
        calls = []

        def hs(a, b, array_out=False):
            calls.append((a, b))
            return z if a is x and b is yend else h
        c.stub("twosls:sphstack", hs)
    else:
        h, z = c.np.hstack((x, q)), c.np.hstack((x, yend))
    if form == "q":
        o = c.func("twosls:BaseTSLS")(y, x, yend, q=q, robust=robust, gwk=gwk, sig2n_k=sig2n_k)
    else:
        o = c.func("twosls:BaseTSLS")(y, x, yend, h=h, robust=robust, gwk=gwk, sig2n_k=sig2n_k)
    if c.symbolic:
        want = [(True, True, False)] + ([(True, False, True)] if form == "q" else [])
        c.structure([(a is x, b is yend, b is q) for a, b in calls] == want, "Z = [X Yend], H = [X Q] built with sphstack")
    tsls_post(c, o, y, z, h, n, robust, sig2n_k, gwk)
    c.eq("z = [X Yend]", o.z, z)
    c.eq("h = [X Q]", o.h, h)
    c.eq("kstar", o.kstar, ke)
    c.frame("inputs unchanged", y, x, yend, q)


def _well(c, x, yend, q):
    np = c.np
    h, z = np.hstack((x, q)), np.hstack((x, yend))
    if np.linalg.cond(h) > 1e4:
        return False
    zp = z.T @ h @ np.linalg.inv(h.T @ h) @ h.T @ z
    return np.linalg.cond(zp) < 1e7


@contract("C02", ["twosls:BaseTSLS.__init__"], draws=4)
def base_tsls_refuses(c):
    n = c.dim("n", 25, 40)
    k, ke, kq = c.dim("k", 1, 3), c.dim("ke", 1, 2), c.dim("kq", 2, 4)
    y, x, yend, q = c.array("y", n, 1), c.array("x", n, k), c.array("yend", n, ke), c.array("q", n, kq)
    c.raises("q and h together refused", lambda: c.func("twosls:BaseTSLS")(y, x, yend, q=q, h=q))
    c.raises("neither q nor h refused", lambda: c.func("twosls:BaseTSLS")(y, x, yend))


@contract("C02", ["twosls:TSLS.__init__", "user_output:check_endog", "user_output:check_constant", "diagnostics:dwh",
                  "diagnostics_tsls:pr2_aspatial"],
          cases=[dict(robust=r, sig2n_k=s, slx=l, pandas=p, one=o) for r, s, l, p, o in
                 [(None, False, 0, False, True), (None, True, 0, True, True), ("white", False, 0, True, False), ("white", True, 1, False, True),
                  ("hac", False, 0, False, False), (None, False, 2, False, True)]],
          sym=False, draws=6, bounded="random designs n<=60, options enumerated")
def tsls_class(c, robust, sig2n_k, slx, pandas, one):
    np = c.np
    n = c.dim("n", 30, 60)
    k, ke = c.dim("k", 1, 2), (1 if one else 2)
    y, x, yend, q = (c.array("y", n, 1), c.array("x", n, k, generic=True), c.array("yend", n, ke, generic=True),
                     c.array("q", n, ke + c.dim("kx", 1, 2) - 1, generic=True))
    w = c.weights("W", n, "row") if slx else None
    gwk = K.kernel_weights(c, "G", n) if robust == "hac" else None
    nx, ne, nq = ["a%d" % i for i in range(k)], ["e%d" % i for i in range(ke)], ["q%d" % i for i in range(q.shape[1])]
    kw = dict(name_y="dep", name_x=nx, name_yend=ne, name_q=nq)
    args = (y, x, yend, q)
    if pandas:
        import pandas as pd
        args = (pd.Series(y[:, 0], name="dep"), pd.DataFrame(x, columns=nx), pd.DataFrame(yend, columns=ne), pd.DataFrame(q, columns=nq))
        kw = {}
    elif ke == 1 and q.shape[1] == 1 and c.rng.rand() < 0.5:
        args = (y, x, yend, q)
    o = c.func("twosls:TSLS")(*args, w=w, robust=robust, gwk=gwk, sig2n_k=sig2n_k, slx_lags=slx, **kw)
    X, lab = K.design(c, x, nx, w, slx)
    h, z = np.hstack((X, q)), np.hstack((X, yend))
    c.assume(_well(c, X, yend, q))
    tsls_post(c, o, y, z, h, n, robust, sig2n_k, gwk)
    c.same("names of Z", list(o.name_z), lab + ne)
    c.same("names of H", list(o.name_h), lab + nq)
    c.same("name_yend", list(o.name_yend), ne)
    pr = np.corrcoef(y[:, 0], o.predy[:, 0])[0, 1] ** 2
    c.eq("pr2", o.pr2, pr)
    K.coef_table(c, o, y, "z")
    c.frame_all("inputs unchanged")


@contract("C02", ["twosls:TSLS.__init__", "twosls:BaseTSLS.__init__", "twosls_sp:GM_Lag.__init__"], cases=[dict(kind=k) for k in ["TSLS", "GM_Lag"]], sym=False, draws=4,
          bounded="random data, regressors rescaled by powers of two between 2^-24 and 2^20, options drawn at random")
def units(c, kind):
    """the estimates do not depend on the units of measurement of the regressors, however badly scaled the design is."""
    zoo.units(c, kind)


# ------------------------------------------------------------------ the public constructor, for all data
@contract("C02", ["twosls:TSLS.__init__"], cases=[dict(s, robust=r, endog=e) for s in K.SLX for r, e in ((None, 1), ("white", 2), ("hac", 1))], num=False,
          note="k = 2 regressors, 1-2 endogenous variables, SLX options and robust enumerated")
def tsls_constructor(c, slx, sv, robust, endog):
    K.constructor(c, "twosls", "TSLS", "twosls:BaseTSLS", slx, sv, endog, marks=("sig2n_k", "robust", "gwk"), given=dict(robust=robust, nonspat_diag=False, spat_diag=False))
