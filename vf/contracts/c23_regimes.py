"""C23: regime helper matrices and block algebra are exact."""
import itertools

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo
from .c12_regimes import positions, restriction

R = "regimes:"


class _O:
    pass


# ------------------------------------------------------------------ Wald with constants
@contract("C23", [R + "Wald.__init__", R + "wald_test"], draws=6)
def wald_constants(c):
    """R b = q, for every R, q, b and covariance (any number of restrictions)."""
    k, r = c.dim("k", 3, 6), c.dim("r", 2, 3)
    b, Rm, q = c.array("b", k, 1), c.array("R", r, k), c.array("q", r, 1)
    V = c.array("V", k, k, symmetric=True)
    if not c.symbolic:
        V = V @ V.T + np.eye(k)
    o = _O()
    o.betas, o.vm = b, V
    z = c.func(R + "Wald")(o, Rm, q)
    d = Rm @ b - q
    c.eq("Wald statistic", z.w, (d.T @ c.inv(Rm @ V @ Rm.T) @ d)[0, 0])
    c.eq("Wald p-value", z.pvalue, c.chi2sf(z.w, r))
    c.frame("inputs unchanged", b, Rm, q, V)


# ------------------------------------------------------------------ restriction matrices
@contract("C23", [R + "buildR1var", R + "buildR"], sym=False, draws=1, cases=[dict(nr=nr) for nr in range(2, 8)], bounded="every nr<=7, kr<=6, kf<=3, kryd<=kr (exhaustive)")
def restrictions(c, nr):
    """each row tests the equality of the same coefficient in the first and in one other regime; none tests a fixed coefficient."""
    b1, bR = c.func(R + "buildR1var"), c.func(R + "buildR")
    for kr, kf in itertools.product(range(1, 7), range(4)):
        for ky in range(kr + 1):
            for v in range(kr):
                M = b1(v, kr, kf, ky, nr)
                c.true("restrictions on one coefficient", M.shape == (nr - 1, kr * nr + kf) and np.array_equal(M, restriction(v, kr, kf, ky, nr)))
        M = bR(kr, kf, nr)
        c.true("all restrictions together", np.array_equal(M, np.vstack([restriction(v, kr, kf, 0, nr) for v in range(kr)])))
        # under the null every coefficient is the same in every regime, and only then
        b = np.concatenate([np.tile(np.arange(1.0, kr + 1), nr), np.arange(kf) + 9.0])
        c.true("equal coefficients satisfy the restrictions", not (M @ b).any())
        c.true("the restrictions are independent", np.linalg.matrix_rank(M) == kr * (nr - 1))


# ------------------------------------------------------------------ restriction matrices of any size (index arithmetic)
class IntMat:
    """an integer matrix given by its entries: at(i, j) -> value (conditions on i and j fork the path)."""

    def __init__(self, shape, at):
        self.shape, self.at = shape, at

    def __setitem__(self, ix, v):
        i, j = ix
        old = self.at
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("stepped slice of a restriction matrix")
            lo, hi = (0 if i.start is None else i.start), (self.shape[0] if i.stop is None else i.stop)
            self.at = lambda a, b: v if (b == j) and (a >= lo) and (a < hi) else old(a, b)
        else:
            self.at = lambda a, b: v if (a == i) and (b == j) else old(a, b)


def int_np(c, each, made):
    from .. import loader
    from .c28_skater import Delegate
    m = loader.load("regimes")
    N = m.np if not isinstance(m.np, Delegate) else m.np._base

    def hstack(ms):
        a, b = ms
        c.true("blocks side by side have the same number of rows", a.shape[0] == b.shape[0])
        return IntMat((a.shape[0], a.shape[1] + b.shape[1]), lambda i, j: a.at(i, j) if j < a.shape[1] else b.at(i, j - a.shape[1]))
    def zeros(s, *a, **k):
        made.append(IntMat(s, lambda i, j: 0))
        return made[-1]
    loader.STUBS.setdefault(("regimes", None, "np"), (m, N))
    m.np = Delegate(N, zeros=zeros, arange=each, hstack=hstack)
    c.used_stubs.add("np.zeros, np.hstack, np.arange of integer matrices given by their entries")
    return m


@contract("C23", [R + "buildR1var"], cases=[dict(endog=e, at=a) for e in (False, True) for a in ("the visited row", "another row", "fixed")], num=False,
          note="every number of regimes, of varying (exogenous, endogenous) and fixed coefficients and every variable; loop invariant over the rows; nonlinear integer arithmetic in z3")
def restriction_rows(c, endog, at):
    """row i tests coefficient v of the first regime against that of regime i + 2, in the order [exogenous by regime, endogenous by regime, fixed]."""
    from ..engine import ForEach
    # sizes >= 1: nr = 1 + m regimes, kx exogenous, ky = kyd - 1 (or kyd) endogenous varying coefficients, kf = f1 - 1 fixed ones
    m, f1 = c.dim("m", 1, 5), c.dim("f1", 1, 4)
    nr, kf = 1 + m, f1 - 1
    v1 = c.dim("v1", 1, 6)
    if endog:
        kx, ky = c.dim("kx1", 1, 5) - 1, c.dim("ky", 1, 4)
        e = v1 - 1
        c.assume(e < ky)
        v = kx + e
        pos = lambda r: kx * nr + r * ky + e
    else:
        kx, ky = c.dim("kx", 1, 5), c.dim("ky1", 1, 4) - 1
        v = v1 - 1
        c.assume(v < kx)
        pos = lambda r: r * kx + v
    kr = kx + ky
    # the entry (i, j) looked at; the visited row
    j, row = c.dim("j1", 1, 40) - 1, c.dim("row1", 1, 5) - 1
    if at == "another row":
        i = c.dim("i1", 1, 5) - 1
        c.assume(i != row)
        c.assume(i < m)
    else:
        i = row
    c.assume(row < m)
    c.assume(j < kr * nr)
    required = lambda t, a, b: -1 if (a < t) and (b == pos(a + 1)) else (1 if b == pos(0) else 0)
    made, seen = [], dict(rows=row)

    def enter(loc):
        c.structure(len(made) == 1, "one matrix is filled row by row")
        c.same("before the loop: the first regime's coefficient in every row", made[0].at(i, j), required(0, i, j))
        made[0].at = lambda a, b: required(seen["rows"], a, b)
        return {}

    def back(loc, was):
        c.structure(len(made) == 1, "one matrix is filled row by row")
        c.same("after a row: that row is complete, the others are as before", made[0].at(i, j), required(row + 1, i, j))

    class Rows(ForEach):
        def __next__(self):
            try:
                x = super().__next__()
            except StopIteration:
                seen["rows"] = m        # every row has been visited
                raise
            return x                    # the rows before it have been
    each = {}

    def arange(n):
        c.true("one row for every other regime", n == m)
        c.structure("f" not in each, "one loop over the rows")
        each["f"] = Rows("rows", row, enter, back)
        return each["f"]
    int_np(c, arange, made)
    out = c.func(R + "buildR1var")(v, kr, kf, ky, nr)
    c.true("shape", (out.shape[0] == m) and (out.shape[1] == kr * nr + kf))
    if at == "fixed":
        c.assume(j < kf)
        c.same("no restriction on a fixed coefficient", out.at(i, kr * nr + j), 0)
    else:
        c.same("every entry of the varying coefficients", out.at(i, j), required(m, i, j))


# ------------------------------------------------------------------ designs
def dense_design(x, regimes, cols, rs):
    """[x_varying * 1(regime = r) for every r | x_fixed]"""
    reg = [[i for i, v in enumerate(regimes) if v == r] for r in rs]
    v = [j for j in range(x.shape[1]) if cols[j]]
    f = [j for j in range(x.shape[1]) if not cols[j]]
    blocks = []
    for ids in reg if v else []:
        b = np.zeros((x.shape[0], len(v)))
        b[ids] = x[ids][:, v]
        blocks.append(b)
    return np.hstack(blocks + [x[:, f]])


LABELS = [["a", "b", "c"], [1, 2, 3], [1.0, 2.0, 3.0], [0.5, 1.5, 1.25], ["1", "10", "2"], [True, False, True], [-1, 0, 7]]


def order(ls):
    return sorted(set(int(l) if isinstance(l, float) and all(float(q).is_integer() for q in ls) else l for l in ls))


@contract("C23", [R + "x2xsp", R + "regimeX_setup", R + "_get_regimes_set"], sym=False, draws=1, cases=[dict(n=n) for n in range(2, 7)],
          bounded="every regime vector with n<=6 observations and up to 3 regimes, every choice of varying columns (k<=3); the functions only move the elements of x, which are all "
                  "distinct here, so the result is determined for every x of those sizes")
def designs(c, n):
    f, g, h = c.func(R + "x2xsp"), c.func(R + "regimeX_setup"), c.func(R + "_get_regimes_set")
    for vec in itertools.product(range(3), repeat=n):
        if n > 4 and c.rng.rand() > 0.15:
            continue
        L = LABELS[c.rng.randint(len(LABELS))]
        regimes = [L[i] for i in vec]
        rs = h(regimes)
        c.same("regimes are the sorted distinct labels", list(rs), order(regimes))
        for k in (1, 2, 3):
            x = 1.0 + np.arange(n * k).reshape(n, k)
            if k == 2:
                x = np.asfortranarray(x)
            z = f(x, regimes, rs).toarray()
            c.true("expansion of all columns", np.array_equal(z, dense_design(x, regimes, [True] * k, rs)))
            # splitting again loses nothing
            for i, r in enumerate(rs):
                ids = [j for j in range(n) if regimes[j] == r]
                c.true("block of a regime holds exactly its rows", np.array_equal(z[ids][:, i * k:(i + 1) * k], x[ids]))
            c.true("no element is lost or duplicated", np.array_equal(np.sort(z[z != 0]), np.sort(x.ravel())))
            for cols in itertools.product([True, False], repeat=k):
                z = g(x, regimes, list(cols), rs).toarray()
                c.true("varying columns by regime, then the fixed ones", np.array_equal(z, dense_design(x, regimes, cols, rs)))


@contract("C23", [R + "Regimes_Frame.__init__", R + "set_name_x_regimes", R + "check_cols2regi"],
          cases=[dict(cons=o, cols=q) for o in (False, "one", "many") for q in ("all", "list")], sym=False, draws=12, bounded="random x (zeros included), n<=30, k<=4, p<=3, up to 5 regimes")
def frames(c, cons, cols):
    """x block then endogenous block: designs, names, types and the counts used by the Chow tests."""
    n, k, p = c.dim("n", 12, 30), int(c.rng.randint(1, 5)), int(c.rng.randint(0, 4))
    L = LABELS[c.rng.randint(len(LABELS))]
    nr = len(set(L))
    while True:
        regimes = [L[i] for i in c.rng.randint(0, len(L), n)]
        if len(set(regimes)) == nr:
            break
    x = c.rng.randn(n, k) * (c.rng.rand(n, k) < 0.8)
    ye = c.rng.randn(n, p)
    rs = order(regimes)
    choice = "all" if cols == "all" else [zoo.flip(c) for _ in range(k + p)]
    nx, ny = ["x%d" % j for j in range(k)], ["y%d" % j for j in range(p)]
    given = list(choice) if choice != "all" else choice
    M = c.mod("regimes")

    class F(M.Regimes_Frame):
        def __init__(s):
            s.a = M.Regimes_Frame.__init__(s, x, regimes, cons, choice, names=list(nx), rlist=True)
            c.true("counts of x", s.kr == cx.count(True) and s.kf == cx.count(False) and s.kryd == 0 and s.nr == nr)
            if p:
                s.b = M.Regimes_Frame.__init__(s, ye, regimes, False, choice, names=list(ny), yend=True, rlist=True)
    cx = ([] if not cons else [cons == "many"]) + ([True] * k if choice == "all" else choice[:k])
    cy = [True] * p if choice == "all" else choice[k:]
    o = F()
    X = np.hstack([np.ones((n, 1)), x]) if cons else x
    NX = (["CONSTANT"] if cons else []) + nx
    TX = (["o"] if cons else []) + ["x"] * k

    def names(N, C):
        return ["%s_%s" % (r, a) for r in rs for a, q in zip(N, C) if q] + ["_Global_%s" % a for a, q in zip(N, C) if not q]

    def types(N, C):
        return [a for r in rs for a, q in zip(N, C) if q] + [a for a, q in zip(N, C) if not q]

    def rl(N, C):
        return [str(r) for r in rs for a, q in zip(N, C) if q] + ["_Global" for a, q in zip(N, C) if not q]
    z, nm, ty, r_ = o.a
    c.true("design of x", np.array_equal(z.toarray(), dense_design(X, regimes, cx, rs)))
    c.same("names of x", list(nm), names(NX, cx))
    c.same("types of x", list(map(str, ty)), types(TX, cx))
    c.same("regimes of x", list(r_), rl(NX, cx))
    if p:
        z, nm, ty, r_ = o.b
        c.true("design of the endogenous variables", np.array_equal(z.toarray(), dense_design(ye, regimes, cy, rs)))
        c.same("names of the endogenous variables", list(nm), names(ny, cy))
        if cols == "list":          # the estimators always pass the explicit list (check_cols2regi)
            c.same("types of the endogenous variables", list(map(str, ty)), types(["yend"] * p, cy))
        c.same("regimes of the endogenous variables", list(r_), rl(ny, cy))
    c.true("counts", o.kr == (cx + cy).count(True) and o.kf == (cx + cy).count(False) and o.kryd == (cy.count(True) if p else 0) and o.nr == nr)
    c.true("regimes in order", list(o.regimes_set) == rs)
    c.same("the caller's choice is unchanged", choice, given)
    # check_cols2regi
    f = c.func(R + "check_cols2regi")
    if cons:
        c.same("choice of columns", f(cons, choice, x, ye if p else None), cx + cy)
        c.same("choice of columns without constant", f(cons, choice, x, ye if p else None, add_cons=False), (cx + cy)[1:])
        c.raises("a choice of the wrong length is refused", lambda: f(cons, [True] * (k + p + 1), x, ye if p else None))
        if k + p > 1:
            c.raises("a choice of the wrong length is refused", lambda: f(cons, [True] * (k + p - 1), x, ye if p else None))


@contract("C23", [R + "check_const_regi"], sym=False, draws=25, bounded="random x, n<=30, k<=5")
def constants(c):
    """columns constant within at least one regime are removed, and only those; a constant is added."""
    n, k = c.dim("n", 12, 30), int(c.rng.randint(1, 6))
    regimes = [["a", "b", "c"][i % 3] for i in c.rng.permutation(n)]
    x = c.rng.randn(n, k)
    for j in range(k):
        for r in "abc":
            if c.rng.rand() < 0.2:
                x[[i for i in range(n) if regimes[i] == r], j] = c.rng.randint(3)
    ids = {r: [i for i in range(n) if regimes[i] == r] for r in "abc"}
    bad = [j for j in range(k) if any(len(set(x[ids[r], j])) == 1 for r in "abc")]
    keep = [j for j in range(k) if j not in bad]
    o = _O()
    o.regimes_set = ["a", "b", "c"]
    nx = ["v%d" % j for j in range(k)]
    x0 = x.copy()
    with zoo.quiet():
        xc, nm = c.func(R + "check_const_regi")(o, x, nx, ids)
    c.true("constant and the remaining columns", np.array_equal(np.asarray(xc), np.hstack([np.ones((n, 1)), x0[:, keep]])))
    c.same("names of the remaining columns", nm, ["CONSTANT"] + ["v%d" % j for j in keep])
    c.true("a warning names what was removed", (not bad) or all("v%d" % j in o.warning for j in bad))
    c.true("inputs unchanged", np.array_equal(x, x0) and nx == ["v%d" % j for j in range(k)])


@contract("C23", [R + "_get_weighted_var"], cases=[dict(endog=e, sig2n_k=s) for e in (False, True) for s in (False, True)], sym=False, draws=6, bounded="random data, n<=40")
def weighted(c, endog, sig2n_k):
    """every variable divided by the standard deviation of its regime's residuals."""
    n, k = c.dim("n", 20, 40), c.dim("k", 1, 3)
    L = LABELS[c.rng.randint(len(LABELS))]
    regimes = [L[i % len(L)] for i in c.rng.permutation(n)]
    rs = order(regimes)
    y, x, u, ye, q = (c.rng.randn(n, m) for m in (1, k, 1, 1, 2))
    s = np.zeros((n, 1))
    for r in rs:
        ids = [i for i in range(n) if regimes[i] == r]
        s[ids] = np.sqrt((u[ids] ** 2).sum() / (len(ids) - (k if sig2n_k else 0)))
    sp = zoo.flip(c)
    import scipy.sparse as SP
    X = SP.csr_matrix(x) if sp else x
    r = c.func(R + "_get_weighted_var")(regimes, rs, sig2n_k, u, y, X, *((ye, q) if endog else ()))
    want = [y / s, x / s] + ([ye / s, q / s] if endog else [])
    c.true("as many variables as given", len(r) == len(want))
    for nm, a, b in zip(("y", "x", "yend", "q"), r, want):
        c.eq("weighted " + nm, c.dense(a), b)


# ------------------------------------------------------------------ weights
def any_w(c, n):
    import libpysal
    nb, wt = {}, {}
    ids = list(range(n)) if zoo.flip(c) else ["id%d" % i for i in c.rng.permutation(n)]
    for i in ids:
        js = [j for j in ids if j != i and c.rng.rand() < 0.4]
        nb[i] = js
        wt[i] = [float(v) for v in c.rng.uniform(0.2, 3, len(js))]
    w = libpysal.weights.W(nb, wt, id_order=ids, silence_warnings=True) if zoo.flip(c) else libpysal.weights.W(nb, id_order=ids, silence_warnings=True)
    w.transform = zoo.pick(c, "o", "r", "b")
    return w


@contract("C23", [R + "w_regime", R + "w_regimes", R + "w_regimes_union"], cases=[dict(transform=t) for t in (True, False)], sym=False, draws=20, bounded="random weights, n<=20, up to 4 regimes")
def weights(c, transform):
    n, nr = c.dim("n", 6, 20), int(c.rng.randint(2, 5))
    w = any_w(c, n)
    regimes = [["a", "b", "c", "d"][i % nr] for i in c.rng.permutation(n)]
    rs = sorted(set(regimes))
    D = w.sparse.toarray()
    tr = w.transform
    pos = {r: [i for i in range(n) if regimes[i] == r] for r in rs}

    def want(ids):
        B = D[np.ix_(ids, ids)]
        if tr == "R" and transform:
            s = B.sum(1, keepdims=True)
            B = np.divide(B, s, out=np.zeros_like(B), where=s != 0)
        return B
    subs = {}
    with zoo.quiet():
        ws, ids, warn = c.func(R + "w_regimes")(w, regimes, rs, transform, get_ids=True)
        for r in rs:
            a, wr = c.func(R + "w_regime")(w, pos[r], r, transform)
            subs[r] = a
            order_ = [w.id_order[i] for i in pos[r]]
            for x, what in ((a, "w_regime"), (ws[r], "w_regimes")):
                c.same(what + ": observations of the regime in order", list(x.id_order), order_)
                c.eq(what + ": exactly the links within the regime", x.sparse.toarray(), want(pos[r]))
                c.true(what + ": transformation kept", (not transform) or x.transform == tr)
            isl = [i for i, k in enumerate(order_) if not (D[pos[r][i]][pos[r]] != 0).any()]
            c.true("islands are reported", (wr is not None) == bool(isl))
            c.same("positions of the regime", [int(i) for i in ids[r]], pos[r])
            m = len(pos[r])
            c.raises("a regime with too few observations is refused", lambda: c.func(R + "w_regime")(w, pos[r], r, transform, min_n=m + 1))
            c.func(R + "w_regime")(w, pos[r], r, transform, min_n=m)
        if transform:
            u = c.func(R + "w_regimes_union")(w, subs, rs)
            B = np.zeros((n, n))
            for r in rs:
                B[np.ix_(pos[r], pos[r])] = want(pos[r]) if tr != "O" else D[np.ix_(pos[r], pos[r])]
            c.same("union: observations in the original order", list(u.id_order), list(w.id_order))
            have = u.sparse.toarray()
            c.true("union: exactly the links within regimes", np.array_equal(have != 0, B != 0))
            c.true("union: transformation kept", u.transform == tr)
            if tr == "R":
                c.eq("union: row-standardised", have.sum(1)[B.sum(1) > 0], np.ones(int((B.sum(1) > 0).sum())))
    c.true("the caller's weights are unchanged", w.transform == tr and np.array_equal(w.sparse.toarray(), D))
