"""C28: spatially constrained regression clusters are a valid partition."""
import copy

import numpy as np

from ..engine import contract
from ..terms import Unsupported
from . import common as K
from . import zoo


def graph_of(c, style, lo=12):
    import libpysal
    if style == "grid":
        a, b = c.rng.randint(3, 6) + (2 if lo > 12 else 0), c.rng.randint(4, 6)
        return libpysal.weights.lat2W(int(a), int(b), rook=zoo.flip(c))
    n = int(c.rng.randint(lo, lo + 14))
    nb = {i: set() for i in range(n)}

    def link(i, j):
        if i != j:
            nb[i].add(int(j))
            nb[j].add(int(i))
    if style in ("tree", "ring", "random"):
        for i in range(1, n):
            link(i, int(c.rng.randint(max(0, i - 3), i)) if style != "ring" else i - 1)
        if style == "ring":
            link(0, n - 1)
        if style == "random":
            for _ in range(n):
                link(int(c.rng.randint(n)), int(c.rng.randint(n)))
    else:                                   # two components
        m = n // 2
        for i in list(range(1, m)) + list(range(m + 1, n)):
            link(i, int(c.rng.randint(0 if i < m else m, i)))
        for _ in range(n):
            i, j = int(c.rng.randint(n)), int(c.rng.randint(n))
            if (i < m) == (j < m):
                link(i, j)
    return libpysal.weights.W({i: sorted(nb[i]) for i in nb}, silence_warnings=True)


class LS:
    """a regression class with the interface of statsmodels."""
    def __init__(self, y, x):
        self.y, self.x = np.asarray(y), np.asarray(x)

    def fit(self):
        self.params = np.linalg.lstsq(self.x, self.y, rcond=None)[0]
        self.resid = (self.y - self.x @ self.params).ravel()
        return self


LS.__name__ = "OLS"


def problem(c, style, reg):
    import spreg
    w = graph_of(c, style, 24 if reg == "GM_Lag" else 12)
    n = w.n
    k = zoo.pick(c, 1, 2)
    x = c.rng.randn(n, k)
    b = np.where(c.rng.permutation(n) < n // 2, 1.0, 3.0)[:, None]
    y = 1 + x.sum(1, keepdims=True) * b + c.rng.randn(n, 1) * 0.5
    data = np.hstack([x, y])
    d = None
    if reg == "OLS":
        d = dict(reg=spreg.OLS, y=y, x=x)
    elif reg == "statsmodels":
        d = dict(reg=LS, y=y, x=x)
    elif reg == "TSLS":
        q = c.rng.randn(n, 2)
        d = dict(reg=spreg.TSLS, y=y, x=x, yend=q.sum(1, keepdims=True) + c.rng.randn(n, 1) * 0.3, q=q)
    elif reg == "GM_Error":
        wr = copy.deepcopy(w)
        wr.weights = {i: [float(v) for v in c.rng.uniform(0.5, 2, len(wr.neighbors[i]))] for i in wr.neighbors}
        wr = type(wr)(wr.neighbors, wr.weights, silence_warnings=True)
        wr.transform = "r"
        d = dict(reg=spreg.GM_Error, y=y, x=x, w=wr)
    elif reg == "GM_Lag":
        wr = copy.deepcopy(w)
        wr.transform = "r"
        d = dict(reg=spreg.GM_Lag, y=y, x=x, w=wr)
        if zoo.flip(c):
            q = c.rng.randn(n, 2)
            d.update(yend=q.sum(1, keepdims=True) + c.rng.randn(n, 1) * 0.3, q=q)
    return w, data, d


def ssr(c, d, data, ids, reducer=None):
    """sum of squared residuals of the model on the observations ids, from its definition."""
    if d is None:
        z = data[ids]
        return float(np.sqrt(((z - z.mean(0)) ** 2).sum(1)).sum())
    X = np.hstack([np.ones((len(ids), 1)), d["x"][ids]])
    y = d["y"][ids]
    name = d["reg"].__name__
    if name == "GM_Error":
        import libpysal
        B = d["w"].sparse.toarray()[np.ix_(ids, ids)]
        w = libpysal.weights.W({i: np.nonzero(B[i])[0].tolist() for i in range(len(ids))}, {i: B[i][B[i] != 0].tolist() for i in range(len(ids))}, silence_warnings=True)
        w.transform = "r"
        with zoo.quiet():
            r = d["reg"](y, d["x"][ids], w).u
    elif name == "OLS":
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        r = y - X @ b
    else:
        if name == "TSLS":
            ye, q = d["yend"], d["q"]
        else:
            W = d["w"].sparse.toarray()
            ye, q = W @ d["y"], W @ d["x"]
            if "yend" in d:
                ye, q = np.hstack([d["yend"], ye]), np.hstack([d["q"], W @ np.hstack([d["x"], d["q"]])])
        H = np.hstack([X, q[ids]])
        Z = np.hstack([X, ye[ids]])
        Zh = H @ np.linalg.lstsq(H, Z, rcond=None)[0]
        r = y - Z @ np.linalg.solve(Zh.T @ Z, Zh.T @ y)
    return float((r * r).sum())


def connected(w, ids):
    ids = set(ids)
    todo, seen = [next(iter(ids))], set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += [j for j in w.neighbors[i] if j in ids and j not in seen]
    return seen == ids


def components(w):
    left, k = set(w.id_order), 0
    while left:
        todo = [left.pop()]
        k += 1
        while todo:
            i = todo.pop()
            for j in w.neighbors[i]:
                if j in left:
                    left.remove(j)
                    todo.append(j)
    return k


def partition(c, w, lab, quorum, label=""):
    n = w.n
    c.true(label + "one label per observation", lab is not None and len(lab) == n)
    lab = np.asarray(lab)
    c.true(label + "labels are integers 0..m-1", sorted(set(lab.tolist())) == list(range(len(set(lab.tolist())))))
    for l in set(lab.tolist()):
        ids = np.nonzero(lab == l)[0].tolist()
        c.true(label + "each cluster is connected", connected(w, ids))
        c.true(label + "each cluster has at least the required number of members", len(ids) >= quorum)
    return lab


STYLES = ["grid", "tree", "ring", "random", "two"]
REGS = ["none", "OLS", "statsmodels", "TSLS", "GM_Lag", "GM_Error"]


@contract("C28", ["skater_reg:Skater_reg.fit", "skater_reg:Skater_reg.find_cut", "skater_reg:Skater_reg.score_spreg", "skater_reg:Skater_reg._prep_lag",
                  "skater_reg:Skater_reg.score_stats", "skater_reg:Skater_reg._data_reg_none", "skater_reg:Skater_reg._prep_score"],
          cases=[dict(style=s, reg=r) for s in STYLES for r in REGS], sym=False, draws=3, timeout=120,
          bounded="random connected and disconnected contiguity graphs of up to 25 areas, up to 5 clusters, random quorum")
def fit(c, style, reg):
    import spreg
    w, data, d = problem(c, style, reg)
    n = w.n
    nc = int(c.rng.randint(2, 5 if reg != "GM_Lag" else 3))
    lo = {"none": 1, "OLS": 4, "statsmodels": 4, "TSLS": 7, "GM_Lag": 11, "GM_Error": 7}[reg]
    quorum = int(c.rng.randint(lo, lo + 4))
    comp = components(w)
    isl = zoo.pick(c, "increase", "ignore")
    refused = False
    with zoo.quiet():
        s = spreg.skater_reg.Skater_reg()
        try:
            r = s.fit(nc, w, data if d is None or zoo.flip(c, 0.7) else c.rng.randn(n, 2), d, quorum=quorum, trace=True, islands=isl,
                      **(dict(model_family="statsmodels") if reg == "statsmodels" else {}))
        except ValueError as e:
            refused = str(e)
    want = nc + (comp if comp > 1 and isl == "increase" else 0)
    if refused:
        known = ["number of observations is less than", "Islands must be larger", "The score increased"]
        c.true("refused only for one of the documented reasons", any(k in refused for k in known))
        if "increased" in refused:
            c.true("a score can increase only for instrumental-variable models or distances to the mean", reg not in ("OLS", "statsmodels"))
        elif "less than" in refused:
            c.true("refused as too small only when it is", n <= nc * quorum)
        else:
            c.true("islands refused only when there are some", comp > 1)
        return
    c.true("fit returns the object", r is s)
    lab = partition(c, w, r.current_labels_, quorum)
    m = len(set(lab.tolist()))
    c.true("no more clusters than asked for", comp <= m <= max(want, comp))
    parts = [ssr(c, d, data, np.nonzero(lab == l)[0]) for l in range(m)]
    # the path: one more cluster each time, nested, scores as reported
    prev = None
    for i, (tl, cut) in enumerate(s._trace):
        if i == 0:
            c.true("the path starts without a cut", tl == [] and np.isinf(cut.score))
            continue
        tl = partition(c, w, tl, quorum, "path: ")
        c.true("each cut adds one cluster", len(set(tl.tolist())) == comp + i)
        if prev is not None:
            c.true("each cut splits one cluster of the step before", all(len(set(prev[tl == l].tolist())) == 1 for l in set(tl.tolist())))
            c.true("the ends of a cut end up in different clusters", tl[cut.in_node] != tl[cut.out_node] and prev[cut.in_node] == prev[cut.out_node])
        c.true("a cut is an edge of the contiguity structure", int(cut.out_node) in [w.id_order.index(j) for j in w.neighbors[w.id_order[int(cut.in_node)]]])
        prev = tl
    if len(s._trace) > 1:
        c.true("the last step of the path is the result", np.array_equal(s._trace[-1][0], lab))
        if not (d is None):
            c.eq("the reported score is the sum of the scores of the clusters", s._trace[-1][1].score, sum(parts), tol=1e-6, scale=max(1, sum(parts)))
            for tl, cut in s._trace[1:]:
                tl = np.asarray(tl)
                tot = sum(ssr(c, d, data, np.nonzero(tl == l)[0]) for l in set(tl.tolist()))
                c.eq("path: the reported score is the sum of the scores of the clusters", cut.score, tot, tol=1e-6, scale=max(1, tot))
    if d is not None and reg != "GM_Lag":
        with zoo.quiet():
            score = s.score_stats if reg == "statsmodels" else s.score_spreg
            sc, ts = score(data, d, lab)
            sc2, ts2 = score(data, d)
        c.eq("score of the labels is the sum of the regression scores", sc, sum(parts), tol=1e-6, scale=max(1, sum(parts)))
        c.eq("the labels of the fit are used when none are given", sc2, sc)
        for l in range(m):
            c.eq("score of each cluster is its own sum of squared residuals", ts[l], parts[l], tol=1e-6, scale=max(1, parts[l]))
    # whether the search stopped early: then no single cut of a tree meets the quorum
    if m < want:
        F = r.minimum_spanning_forest_
        import scipy.sparse.csgraph as cg
        for i, j in np.vstack(F.nonzero()).T:
            G = F.copy()
            G[i, j] = 0
            G.eliminate_zeros()
            _, l2 = cg.connected_components(G, directed=False)
            c.true("stopped early only because no cut meets the quorum", min(np.bincount(l2)) < quorum)


@contract("C28", ["skater_reg:Skater_reg.find_cut"], cases=[dict(style=s, reg=r) for s in STYLES for r in ("OLS", "TSLS", "GM_Lag")], sym=False, draws=2, timeout=120,
          bounded="random forests of up to 25 areas")
def best_cut(c, style, reg):
    """find_cut returns, of all single-edge cuts that meet the quorum, one with the smallest total score."""
    import scipy.sparse.csgraph as cg
    import spreg
    w, data, d = problem(c, style, reg)
    wb = w.sparse.multiply(spreg.skater_reg.euclidean_distances(data))
    F = cg.minimum_spanning_tree(wb.tocsr())
    nt, lab = cg.connected_components(F, directed=False)
    q = {"OLS": 4, "TSLS": 7, "GM_Lag": 11, "GM_Error": 7}[reg]
    s = spreg.skater_reg.Skater_reg()
    before = F.toarray().copy()
    for step in range(2):
        scores, only = {}, {}
        if step == 1 and zoo.flip(c):      # restricted to one group of areas
            gl = lab if zoo.flip(c) else c.rng.randint(0, 2, len(lab))
            only = dict(labels=gl, target_label=int(c.rng.choice(gl)))
        for i, j in np.vstack(F.nonzero()).T:
            if only and only["labels"][i] != only["target_label"]:
                continue
            G = F.copy()
            G[i, j] = 0
            G.eliminate_zeros()
            _, l2 = cg.connected_components(G, directed=False)
            a = np.bincount(l2[lab == lab[i]])
            if min(a[a > 0]) >= q:
                scores[(i, j)] = sum(ssr(c, d, data, np.nonzero(l2 == l)[0]) for l in set(l2.tolist()))
        with zoo.quiet():
            cut, ts, G, nn, l2 = s.find_cut(F, data, d, nt, lab, quorum=q, trees_scores=None if step == 0 else ts, **only)
        c.true("the forest passed in is not changed", np.array_equal(F.toarray(), before))
        if not scores:
            c.true("no cut is returned when none meets the quorum", cut.in_node is None and np.isinf(cut.score))
            return
        best = min(scores.values())
        c.eq("the best cut has the smallest total score", scores.get((cut.in_node, cut.out_node), float("inf")), best, tol=1e-6, scale=max(1, best))
        c.eq("its reported score is the total", cut.score, best, tol=1e-6, scale=max(1, best))
        c.true("number of clusters reported", nn == len(set(l2.tolist())) == nt + 1)
        D = before.copy()
        D[cut.in_node, cut.out_node] = 0
        c.true("the forest returned lacks exactly the cut edge", np.array_equal(G.toarray(), D))
        if ts:
            for l in set(l2.tolist()):
                c.eq("tree scores belong to the new labels", ts[l], ssr(c, d, data, np.nonzero(l2 == l)[0]), tol=1e-6, scale=max(1, best))
        F, nt, lab = G, nn, l2
        before = F.toarray().copy()


@contract("C28", ["ols_regimes:OLS_Endog_Regimes.__init__", "twosls_regimes:TSLS_Endog_Regimes.__init__", "twosls_sp_regimes:GM_Lag_Endog_Regimes.__init__", "utils:optim_k"],
          cases=[dict(cls=k, auto=a) for k in ("OLS", "TSLS", "GM_Lag") for a in (False, True)], sym=False, draws=4, timeout=120,
          bounded="grids of up to 42 areas, quorum of at least 5, up to 4 clusters")
def endogenous(c, cls, auto):
    """models with endogenous regimes: the regimes are a valid partition, the model is the regimes model of that partition, and the scores
    reported are those of the path."""
    import libpysal
    import pandas as pd
    import spreg
    lag = cls == "GM_Lag"
    w = libpysal.weights.lat2W(5, int(c.rng.randint(5, 8 if not lag else 7)), rook=zoo.flip(c))
    w.transform = "r"
    n, k = w.n, zoo.pick(c, 1, 2)
    x = c.rng.randn(n, k)
    b = np.where(np.arange(n) < n // 2, 1.0, 3.0)[:, None]
    y = 1 + x.sum(1, keepdims=True) * b + c.rng.randn(n, 1) * 0.4
    X, nx = x, ["x%d" % j for j in range(k)]
    if zoo.flip(c):             # a constant among the regressors is not used
        j = int(c.rng.randint(k + 1))
        X, nx2 = np.insert(x, j, 1.0, 1), nx[:j] + ["one"] + nx[j:]
    else:
        nx2 = nx
    if zoo.flip(c):
        Xa = pd.DataFrame(X, columns=nx2) if X.shape[1] > 1 or zoo.flip(c) else pd.Series(X[:, 0], name=nx2[0])
        kw = {}
    else:
        Xa, kw = X, dict(name_x=list(nx2))
    pos, d = (), dict(y=y, x=x)
    if cls == "OLS":
        d["reg"] = spreg.OLS
    elif lag:
        d.update(reg=spreg.GM_Lag, w=w)
    else:
        q = c.rng.randn(n, 2)
        ye = q.sum(1, keepdims=True) + c.rng.randn(n, 1) * 0.3
        pos = (ye, q)
        d.update(reg=spreg.TSLS, yend=ye, q=q)
    lo = {"OLS": 5, "TSLS": 8, "GM_Lag": 6}[cls]
    quorum = int(c.rng.randint(lo, lo + 3)) if not auto else int(n * 0.7 // (zoo.pick(c, 2, 3) + 0.01))
    nc = int(c.rng.randint(2, 4))
    tr = zoo.flip(c, 0.7)
    C = getattr(spreg, cls + "_Endog_Regimes")
    inst = dict(w_lags=1) if lag else {}
    try:
        with zoo.quiet():
            o = C(y, Xa, *pos, w=w, n_clusters=None if auto else nc, quorum=quorum, trace=tr, **kw, **inst)
    except Exception as e:
        if not isinstance(e, ValueError) and "At least 2 regimes" not in str(e):
            raise
        if "less than" in str(e):
            c.true("refused as too small only when it is", not auto and n <= nc * quorum)
            return
        if "empty" in str(e) or "At least 2" in str(e):
            with zoo.quiet():
                z = np.hstack([x] + [v for v in pos[:1]])
                f = spreg.skater_reg.Skater_reg().fit(2, w, (z - z.mean(0)) / z.std(0), d, quorum=quorum, trace=True)
            c.true("no regimes are found only when no cut meets the quorum", len(f._trace) == 1)
            return
        c.true("otherwise refused only because a score can increase for instrumental-variable models (%s)" % str(e)[:70], cls != "OLS" and "increased" in str(e))
        return
    lab = partition(c, w, o.clusters, quorum)
    m = len(set(lab.tolist()))
    c.true("at least two clusters, and no more than asked for", 2 <= m <= (n * 0.7 // quorum if auto else nc))
    c.true("one score for each number of clusters", len(o.SSR) >= m - 1)
    c.eq("the score of the clusters is that of the path", o.SSR[m - 2], o.score, tol=1e-9)
    tot = sum(ssr(c, d, None, np.nonzero(lab == l)[0]) for l in range(m))
    c.eq("the score is the total sum of squared residuals of the clusters", o.score, tot, tol=1e-6, scale=max(1, tot))
    if auto:
        c.same("the number of clusters follows from the scores", m, max(2, spreg.utils.optim_k(list(o.SSR))))
    elif hasattr(o, "_trace"):
        c.true("the last step of the path is the result", np.array_equal(o._trace[-1][0], lab))
    R = getattr(spreg, cls + "_Regimes")
    with zoo.quiet():
        p = R(y, x, *((lab,) if cls == "OLS" else (pos + (lab,) if pos else (lab,))), w=w, name_x=list(nx), regime_err_sep=not lag, **inst)
    c.eq("coefficients are those of the regimes model", o.betas, p.betas, tol=1e-9)
    c.eq("variances are those of the regimes model", o.vm, p.vm, tol=1e-9)
    if lag:
        c.same("names", list(o.name_x), list(p.name_x))
    else:
        c.same("names", [list(o.multi[r].name_x) for r in o.regimes_set], [list(p.multi[r].name_x) for r in p.regimes_set])


@contract("C28", ["utils:optim_k"], sym=False, draws=20, bounded="paths of up to 30 steps")
def number_of_regimes(c):
    """optim_k names a number of clusters of the path (which starts with two)."""
    n = int(c.rng.randint(1, 30))
    s = np.sort(c.rng.rand(n) * 100)[::-1]
    with zoo.quiet():
        k = c.func("utils:optim_k")(list(s))
    c.true("a number of clusters of the path", k == int(k) and 2 <= k <= n + 1)


# ------------------------------------------------------------------ the search, for all data, forests and scores (proof mode)
SK = "skater_reg:Skater_reg"


class Size:
    """np.unique(labels, return_counts=True)[1]: the sizes of the trees."""

    def __init__(self, sizes):
        self.sizes = sizes

    def __lt__(self, q):
        return _Any([s < q for s in self.sizes])

    def __ge__(self, q):
        return _Any([s >= q for s in self.sizes])

    def min(self):
        raise Unsupported("contract decomposition does not fit the code: smallest size")


class _Any:
    def __init__(self, parts):
        self.parts = parts

    def any(self):
        return any([bool(p) for p in self.parts])

    def all(self):
        return all([bool(p) for p in self.parts])


class Mask:
    def __init__(self, lab, l):
        self.lab, self.l = lab, l


class Labels:
    """a vector of labels of unknown length: the labels that occur and how often."""
    __hash__ = object.__hash__

    def __init__(self, name, sizes, sub=None):
        self.name, self.sizes, self.sub = name, dict(sizes), sub or {}

    def __eq__(self, l):
        return Mask(self, l)

    def __iter__(self):
        return iter(list(self.sizes))

    def __len__(self):
        return len(self.sizes) + 5          # only the kind of object matters

    def __getitem__(self, i):
        if isinstance(i, Mask):
            return self.sub[i.lab.name, i.l]
        if isinstance(i, tuple) and i[0] == "node":
            return i[1][self.name]
        raise Unsupported("contract decomposition does not fit the code: labels[%r]" % (i,))

    def tolist(self):
        return _List(self)


class _List:
    def __init__(self, lab):
        self.lab = lab

    def index(self, l):
        return ("node", self.lab.sub["first", l])


class Rows:
    """an array with one row per observation, known by the rows of every tree."""

    def __init__(self, lab, parts):
        self.lab, self.parts = lab, parts
        self.shape = (None, list(parts.values())[0].shape[1])

    def __getitem__(self, i):
        if isinstance(i, Mask) and i.lab is self.lab:
            return self.parts[i.l]
        raise Unsupported("contract decomposition does not fit the code: rows of %r" % (i,))


class Delegate:
    """numpy (or csgraph) with a few functions on the objects above replaced by their contracts."""

    def __init__(self, base, **over):
        self.__dict__.update(over)
        self._base = base

    def __getattr__(self, k):
        return getattr(self._base, k)


def skater_np(c):
    from .. import loader, shims
    m = loader.load("skater_reg")
    N = m.np if not isinstance(m.np, Delegate) else m.np._base

    def unique(lab, return_counts=False, **k):
        if not isinstance(lab, Labels):
            return N.unique(lab, return_counts=return_counts, **k)
        return (list(lab.sizes), Size(list(lab.sizes.values()))) if return_counts else list(lab.sizes)

    def where(m, *a):
        return (m,) if isinstance(m, Mask) else N.where(m, *a)

    def stack(f):
        return lambda a, *r, **k: a if isinstance(a, _Edges) else getattr(N, f)(a, *r, **k)
    # regressors of full column rank in every tree (collinear ones: bounded)
    la = Delegate(N.linalg, matrix_rank=lambda x, *a, **k: x.shape[1])
    loader.STUBS.setdefault(("skater_reg", None, "np"), (m, N))
    m.np = Delegate(N, unique=unique, where=where, nonzero=where, vstack=stack("vstack"), transpose=stack("transpose"), array=stack("array"), linalg=la)
    c.used_stubs.add("np.unique, np.where, np.linalg.matrix_rank of label vectors and data of full rank")
    return m


REGC = ["OLS", "TSLS", "GM_Error", "GM_Lag"]


@contract("C28", [SK + ".score_spreg", SK + "._prep_score"],
          cases=[dict(reg=r, m=m, tree=t) for r in REGC for m in (1, 2, 3) for t in (None, 0) if not (r == "GM_Lag" and t == 0)], num=False,
          note="any number of observations in every tree, any data of full rank; the estimator of a tree by its contract (residuals u). The same of statsmodels models: bounded")
def score(c, reg, m, tree):
    """the score is the sum over the trees concerned of u'u of the model estimated on the rows of that tree, or infinite when a tree is too small."""
    k = c.dim("k", 1, 3)
    ns = [c.dim("n%d" % l, 8, 20) for l in range(m)]
    quorum = c.scalar("quorum", 1, 9)
    ids = [2, 0, 5][:m]                       # labels need not be 0..m-1 in order
    inside = ids if tree is None else ids[:2]
    cur = Labels("cur", {0: c.scalar("nc0", 1, 9), 1: c.scalar("nc1", 1, 9)})
    lab = Labels("lab", dict(zip(ids, ns)))
    lab.sub["cur", 0] = Labels("inside", {l: n for l, n in zip(ids, ns) if l in inside})
    skater_np(c)
    rows = lambda nm, kk: Rows(lab, {l: c.array("%s%d" % (nm, l), n, kk) for l, n in zip(ids, ns)})
    y, x = rows("y", 1), rows("x", k)
    d = dict(y=y, x=x)
    extra = {}
    if reg == "TSLS":
        d["yend"], d["q"] = rows("ye", c.dim("p", 1, 2)), rows("q", c.dim("lq", 2, 3))
    if reg == "GM_Error":
        w = d["w"] = object()
        ws = {l: object() for l in ids}

        def w_regime(w0, r, l, **kk):
            c.true("weights are those of the rows of the tree", w0 is w and isinstance(r, Mask) and r.lab is lab and r.l == l)
            return ws[l], ""
        c.stub("regimes:w_regime", w_regime)
        extra["vm"] = d["vm"] = True
    us, seen = {l: c.array("u%d" % l, n, 1) for l, n in zip(ids, ns)}, []

    class Fit:
        pass
    if reg != "GM_Lag":
        def model(y, x, yend=None, q=None, w=None, **kw):
            hit = [l for l in ids if y is d["y"].parts[l]]
            c.structure(len(hit) == 1, "the model is estimated on the rows of one tree")
            l = hit[0]
            seen.append(l)
            c.eq("regressors are the constant and those of the tree", x, c.np.hstack((c.np.ones((y.shape[0], 1)), d["x"].parts[l])))
            if reg == "TSLS":
                c.true("endogenous variables and instruments are those of the tree", yend is d["yend"].parts[l] and q is d["q"].parts[l])
            c.true("weights are those of the tree", w is (ws[l] if reg == "GM_Error" else None))
            c.same("other options are passed on", sorted(kw.items()), sorted(extra.items()))
            o = Fit()
            o.u = us[l]
            return o
    else:
        n = c.dim("n", 20, 40)
        U = c.array("u", n, 1)
        d = dict(y=c.array("y", n, 1), x=c.array("x", n, k), yend=c.array("ye", n, 1), q=c.array("q", n, k))

        def joint(y=None, x=None, yend=None, q=None, regimes=None, **kw):
            c.true("the joint model has the data and the labels as regimes", y is d["y"] and yend is d["yend"] and q is d["q"] and regimes is lab)
            c.eq("regressors are the constant and the given ones", x, c.np.hstack((c.np.ones((n, 1)), d["x"])))
            seen.append(0)
            o = Fit()
            o.u = U
            return o
        c.stub("twosls_regimes:TSLS_Regimes", joint)

        def model(*a, **k):
            raise Unsupported("contract decomposition does not fit the code: the lag model itself is estimated")
    model.__name__ = reg
    d["reg"] = model
    s = c.func(SK)()
    small = any(bool(lab.sizes[l] < quorum) for l in inside)
    sc, ts = s.score_spreg(None, d, lab, quorum, cur if tree is not None else None, tree)
    if small:
        c.true("a tree below the quorum: infinite", isinstance(sc, float) and sc == float("inf"))
        c.same("no tree scores", ts, None)
        c.same("nothing is estimated", seen, [])
        return
    if reg == "GM_Lag":
        c.eq("score", sc, (U.T @ U)[0, 0])
        return
    c.same("each tree concerned is estimated once", sorted(seen), sorted(inside))
    part = {l: (us[l].T @ us[l])[0, 0] for l in inside}
    c.same("a score for every tree concerned", sorted(ts), sorted(inside))
    for l in inside:
        c.eq("score of a tree", ts[l], part[l])
    c.eq("the score is their sum", sc, sum(part.values()))


# ------------------------------------------------------------------ the best cut
class _Edges:
    def __init__(self, each):
        self.each = self.T = each

    def __iter__(self):
        raise Unsupported("contract decomposition does not fit the code: edges are visited in another way")


class Forest:
    """a spanning forest (sparse matrix of its edges)."""

    def __init__(self, each=None, gone=(), zeros=0, of=None):
        self.each, self.gone, self.zeros, self.of = each, tuple(gone), zeros, of or self
        self.shape = (None, None)

    def nonzero(self):
        return _Edges(self.each)

    def copy(self):
        return Forest(self.each, self.gone, self.zeros, self.of)

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, ij, v):
        assert v == 0
        self.gone, self.zeros = self.gone + (tuple(ij),), self.zeros + 1

    def eliminate_zeros(self):
        self.zeros = 0


CUTS = [dict(m=1, t=0, pos=1, known=False, best=b, skip=False) for b in (False, True)] + \
       [dict(m=m, t=t, pos=p, known=k, best=b, skip=False) for m in (1, 2, 3) for t in range(m) for p in range(t + 1, m + 1) for k in ((True, False) if m == 2 else (True,))
        for b in (False, True)] + [dict(m=2, t=1, pos=2, known=True, best=b, skip=True) for b in (False, True)]


@contract("C28", [SK + ".find_cut"], cases=CUTS, num=False, maxpaths=32,
          note="any number of edges and observations (loop invariant over the edges), any scores; the number of trees before the cut up to 3; "
               "the score of a cut by the contract of score_spreg; connected_components by its documentation")
def find_cut(c, m, t, pos, known, best, skip):
    """of all single-edge cuts whose trees meet the quorum, the one that lowers the score most; with its forest, labels and tree scores."""
    mod = skater_np(c)
    inf = float("inf")
    quorum = c.scalar("quorum", 1, 9)
    first = lambda lab_of, f: {l: f(l) for l in lab_of}
    node = ("node", {"cur": t, "group": 1})
    other = ("node", {"cur": t, "group": 1})
    E = (node, other)
    new = lambda i: i if i < pos else i + 1            # the second part of tree t takes label pos, later trees move up
    cur = Labels("cur", {i: c.scalar("n%d" % i, 1, 9) for i in range(m)})
    loc = Labels("loc", {i: c.scalar("l%d" % i, 1, 9) for i in range(m + 1)})
    old_lab = Labels("old", {i: c.scalar("o%d" % i, 1, 9) for i in range(m + 1)})
    for i in range(m):
        cur.sub["first", i] = {"cur": i, "loc": new(i), "old": new(i)}
    group = Labels("group", {0: 1, 1: 1}) if skip else None
    trees = {i: c.scalar("s%d" % i, 0.5, 2) for i in range(m)} if known else None
    whole = {i: c.scalar("s%d" % i, 0.5, 2) for i in range(m)}
    total = sum(whole.values())
    use = known or m > 1
    a, b = c.scalar("a", 0.1, 1), c.scalar("b", 0.1, 1)
    # the best cut so far: any
    D, parts = c.scalar("D"), {i: c.scalar("p%d" % i, 0.1, 1) for i in range(m + 1)}
    data, dreg = object(), {"reg": type("OLS", (), {})}
    calls = []

    def score_of(self, d0, d1, all_labels=None, quorum_=None, current_labels=None, current_tree=None, **kw):
        q = kw.get("quorum", quorum_)
        c.true("scores are of the data passed in", d0 is data and d1 is dreg)
        if all_labels is cur:
            return total, dict(whole)
        c.structure(all_labels is loc, "the labels scored are those of the forest without the edge")
        c.true("the quorum is passed on", q is quorum)
        c.true("only the tree that is cut is scored", current_labels is cur and current_tree == t)
        calls.append(1)
        if A_finite():
            return a + b, {t: a, pos: b}
        return inf, None
    from ..arr import SymBool
    A_finite = lambda: bool(SymBool("opaque", "the cut meets the quorum"))
    c.stub(SK + ".score_spreg", score_of)
    deletion = mod.deletion
    oldF, oldcut = Forest(gone=[(1, 2)]), None

    def enter(L):
        d0 = L["best_deletion"]
        c.true("entry: no cut yet", d0.score == inf)
        c.true("entry: any improvement counts", L["best_d_score"] == -inf)
        c.same("entry: no tree scores yet", L["best_scores"], {})
        if use:
            c.eq("entry: score before the cut", L["old_score"], total)
        st = {}
        if best:
            st.update(best_deletion=deletion(8, 9, (total - D) if use else -D), best_d_score=D, best_scores=dict(parts), best_MSF=oldF, best_labels=old_lab)
            st.update(local_n_subtrees=m + 1)
        else:
            st.update(best_deletion=deletion(float("nan"), float("nan"), inf), best_d_score=-inf, best_scores={})
            if SymBool("opaque", "an edge was visited"):
                st.update(local_n_subtrees=m + 1)
        return st

    def back(L, s):
        if skip:
            c.same("edges outside the target are left out", calls, [])
            c.true("nothing changes", L["best_d_score"] is s["best_d_score"])
            return
        c.same("every edge is scored once", len(calls), 1)
        d = ((whole[t] if use else 0) - a - b)
        fin = A_finite()
        if fin:
            c.ge0("step: the best cut is at least as good as this one", L["best_d_score"] - d)
        c.same("step: number of trees", L["local_n_subtrees"], m + 1)
        if best and L["best_d_score"] is D:
            c.true("step: otherwise the best cut so far stays", L["best_MSF"] is oldF and L["best_labels"] is old_lab and L["best_deletion"] is s["best_deletion"])
            c.same("step: with its tree scores", sorted(L["best_scores"]), list(range(m + 1)))
            for i in parts:
                c.eq("step: with its tree scores, value", L["best_scores"][i], parts[i])
            return
        if not fin:
            c.true("step: a cut below the quorum is never taken", not best and L["best_d_score"] == -inf and L["best_deletion"].score == inf)
            return
        if best:
            c.ge0("step: the new best is no worse", L["best_d_score"] - D)
        c.eq("step: improvement", L["best_d_score"], d)
        cut = L["best_deletion"]
        c.true("step: ends of the cut", cut.in_node is node and cut.out_node is other)
        c.eq("step: score of the cut is that of all trees", cut.score, (total - whole[t] if use else 0) + a + b)
        F = L["best_MSF"]
        c.true("step: the forest lacks exactly the cut edge", isinstance(F, Forest) and F.of is MSF and F.gone == (E,) and not F.zeros)
        c.true("step: labels are those of that forest", L["best_labels"] is loc)
        want = {new(i): whole[i] for i in range(m) if i != t}
        want.update({t: a, pos: b})
        c.same("step: a score for every tree", sorted(L["best_scores"]), sorted(want))
        for i in want:
            c.eq("step: score of a tree", L["best_scores"][i], want[i])

    from ..engine import ForEach
    MSF = Forest()
    MSF.each = ForEach("edges", E, enter, back)

    def components(F, directed=True, **k):
        c.structure(isinstance(F, Forest), "components of a forest")
        c.same("components ignore the direction of edges", directed, False)
        if F.of is MSF and len(F.gone) == 1 and not F.zeros:
            return m + 1, loc
        return m, cur
    from .. import loader
    loader.STUBS.setdefault(("skater_reg", None, "cg"), (mod, mod.cg))
    mod.cg = Delegate(mod.cg, connected_components=components)
    c.used_stubs.add("scipy.sparse.csgraph.connected_components")
    s = c.func(SK)()
    r = s.find_cut(MSF, data, dreg, m, cur, quorum=quorum, trees_scores=trees, labels=group, target_label=0 if skip else None)
    c.true("the forest passed in is not changed", MSF.gone == ())
    cut, ts, G, nn, lab = r
    if not best:
        c.true("no cut is returned when none meets the quorum", cut.in_node is None and cut.score == inf)
        return
    c.eq("the score reported", cut.score, (total - D) if use else -D)
    c.true("the best cut is returned with its forest and labels", G is oldF and lab is old_lab and cut.in_node == 8 and cut.out_node == 9)
    c.same("number of trees", nn, m + 1)
    c.same("tree scores of the best cut", sorted(ts), list(range(m + 1)))
    for i in parts:
        c.eq("tree scores of the best cut, value", ts[i], parts[i])


# ------------------------------------------------------------------ the sequence of cuts
class FakeW:
    """weights with a transformation."""

    def __init__(self, n, old):
        self.n, self._t, self.binary = n, old, Sim()

    def get_transform(self):
        return self._t

    transform = property(get_transform, lambda s, v: setattr(s, "_t", v.lower()))

    @property
    def sparse(self):
        return self.binary if self._t == "b" else Sim()

    def __getattr__(self, k):
        raise Unsupported("contract decomposition does not fit the code: weights.%s" % k)


class Sim:
    def __init__(self, of=None):
        self.of, self.clean = of, False

    def multiply(self, K):
        return Sim((self, K))

    def eliminate_zeros(self):
        self.clean = True


@contract("C28", [SK + ".fit"], cases=[dict(trees=k, isl=i, reg=r, trace=tr) for k in (1, 3) for i in (("increase", "ignore") if k > 1 else ("increase",))
                                       for r in (True, False) for tr in (True, False)], num=False, maxpaths=64,
          note="any number of clusters and cuts (loop invariant), any scores; find_cut and connected_components by their contracts; up to 3 separate parts of the graph")
def sequence(c, trees, isl, reg, trace):
    """every step of the search, and its result, is the labelling by connected components of a spanning forest from which one more edge that
    meets the quorum was taken; never more clusters than asked for, and fewer only when no cut meets the quorum."""
    mod = skater_np(c)
    inf = float("inf")
    from .. import loader
    from ..arr import SymBool
    n, q, nc = c.scalar("n", 10, 30), c.scalar("quorum", 1, 5), c.scalar("nc", 2, 5)
    c.assume(nc >= 2)
    w = FakeW(n, "r")
    data = type("D", (), {})()
    data.shape = (n, 2)
    Kn = object()
    s = c.func(SK)(dissimilarity=lambda d: Kn if d is data else Sim())
    c.structure(s.metric(data) is Kn, "the dissimilarity is kept")
    F0 = Forest()
    L0 = Labels("start", {i: c.scalar("isl%d" % i, 1, 9) for i in range(trees)})

    def mst(d, **k):
        c.structure(isinstance(d, Sim), "minimum spanning tree of a matrix")
        c.true("edges of the tree are links of the binary contiguity structure, by their dissimilarity", d.of is not None and d.of[0] is w.binary and d.of[1] is Kn)
        return F0

    def components(F, directed=True, **k):
        c.structure(isinstance(F, Forest), "components of a forest")
        c.same("components ignore the direction of edges", directed, False)
        return comp[F]
    comp = {F0: (trees, L0)}
    loader.STUBS.setdefault(("skater_reg", None, "cg"), (mod, mod.cg))
    mod.cg = Delegate(mod.cg, connected_components=components, minimum_spanning_tree=mst)
    mod_warn = []
    loader.STUBS.setdefault(("skater_reg", None, "warn"), (mod, mod.warn))
    mod.warn = lambda *a, **k: mod_warn.append(a)
    c.used_stubs.update(["scipy.sparse.csgraph.minimum_spanning_tree", "scipy.sparse.csgraph.connected_components"])
    dreg = {"reg": type("OLS", (), {})} if reg else None
    # one arbitrary step
    FC, LC, NC = Forest(), Labels("now", {0: c.scalar("m0", 1, 9)}), c.scalar("N")
    comp[FC] = (NC, LC)
    F1, L1 = Forest(), Labels("next", {0: c.scalar("x0", 1, 9)})
    comp[F1] = (NC + 1, L1)
    P, S1 = c.scalar("P"), c.scalar("S1")
    TS, TS1 = object(), object()
    cut1 = mod.deletion(3, 4, S1)
    none = mod.deletion(None, None, inf)
    past = object()
    st = {}
    bool_cut = lambda: bool(SymBool("opaque", "some cut meets the quorum"))

    def find(self, MSF, data_=None, data_reg=None, current_n_subtrees=None, current_labels=None, quorum=None, trees_scores=None, labels=None, target_label=None,
             make=False, verbose=False, model_family="spreg"):
        c.true("cuts are scored on the data passed in", data_ is data and data_reg is dreg)
        c.true("forest and labels belong together", MSF is FC and current_labels is LC)
        c.eq("number of trees belongs to them", current_n_subtrees, NC)
        c.true("the quorum is passed on", quorum is q)
        c.true("tree scores belong to them", trees_scores is st["ts"])
        c.true("all trees may be cut", labels is None and target_label is None)
        st["calls"] = st.get("calls", 0) + 1
        if bool_cut():
            return cut1, TS1, F1, NC + 1, L1
        return none, inf, None, inf, None
    c.stub(SK + ".find_cut", find)
    want = nc if trees == 1 or isl == "ignore" else nc + trees

    def enter(L):
        c.true("entry: the first forest is the spanning forest, with its labels", L["MSF"] is F0 and L["current_labels"] is L0)
        c.eq("entry: number of trees", L["current_n_subtrees"], trees)
        c.eq("entry: number of clusters wanted", L["n_clusters"], want)
        c.true("entry: no tree scores", L["trees_scores"] is None and L["prev_score"] == inf)
        if trace:
            c.true("entry: the path starts without a cut", len(s._trace) == 1 and s._trace[0][0] == [] and s._trace[0][1].score == inf)
            s._trace[:] = [past]
        c.assume(NC >= trees)
        c.assume(NC <= want)
        fst = bool(SymBool("opaque", "first step"))
        st["ts"] = None if fst else TS
        st["prev"] = inf if fst else P
        return dict(MSF=FC, current_labels=LC, current_n_subtrees=NC, trees_scores=st["ts"], prev_score=st["prev"])

    def back(L, s0):
        c.same("one cut is looked for", st["calls"], 1)
        c.true("a step is taken only for a cut that meets the quorum", bool_cut())
        c.true("the step is that cut: its forest, its labels", L["MSF"] is F1 and L["current_labels"] is L1)
        c.true("its tree scores", L["trees_scores"] is TS1)
        c.eq("one tree more", L["current_n_subtrees"], NC + 1)
        c.ge0("a step is taken only while trees are missing (counts are integers: N < wanted gives N + 1 <= wanted)", want - NC)
        if not (isinstance(st["prev"], float)):
            c.ge0("the score does not increase", P - S1)
        c.true("its score is remembered", not isinstance(L["prev_score"], float))
        c.eq("its score is remembered, value", L["prev_score"], S1)
        if trace:
            c.true("the path gains its labels and the cut", len(s._trace) == 2 and s._trace[0] is past and s._trace[1][0] is L1 and s._trace[1][1] is cut1)
    lc = c.loop(SK + ".fit", enter, back)
    small = bool(n <= nc * q)
    tiny = not small and trees > 1 and any(bool(v < q) for v in L0.sizes.values())
    try:
        r = s.fit(nc, w, data, dreg, quorum=q, trace=trace, islands=isl)
    except ValueError as e:
        if small:
            lc.entered = True           # refused before the loop
            c.true("too few observations are refused", "less than" in str(e))
        elif tiny:
            lc.entered = True
            c.true("parts smaller than the quorum are refused", "quorum" in str(e))
        else:
            c.true("otherwise refused only when the score increases", "calls" in st and bool_cut() and not isinstance(st["prev"], float))
            c.ge0("otherwise refused only when the score increases, value", S1 - P)
        return
    c.true("refused when there are too few observations or too small parts", not small and not tiny)
    c.true("fit returns the object", r is s)
    c.true("the result is the last forest and its labels", s.current_labels_ is LC and s.minimum_spanning_forest_ is FC)
    if "calls" in st:
        c.true("the search stops early only when no cut meets the quorum", not bool_cut() and len(mod_warn) >= 1)
    else:
        c.ge0("otherwise there are as many clusters as wanted", NC - want)
        c.ge0("and no more", want - NC)
    if trace:
        c.true("the path is complete", s._trace == [past])
    c.same("the transformation of the weights is restored", w._t, "r")


@contract("C28", [SK + "._prep_lag"], cases=[dict(yend=v) for v in (False, True)], draws=3)
def prep_lag(c, yend):
    """a lag model is scored with the spatial lag as an endogenous variable, instrumented by the lags of the exogenous variables."""
    n, k = c.dim("n", 12, 30), c.dim("k", 1, 3)
    w = c.weights("W", n, "row")
    W = c.wd(w)
    d = dict(y=c.array("y", n, 1), x=c.array("x", n, k), w=w)
    ye, q = [], [W @ d["x"]]
    if yend:
        d["yend"], d["q"] = c.array("ye", n, 1), c.array("q", n, 2)
        ye, q = [d["yend"]], [d["q"], W @ d["x"], W @ d["q"]]
    keys = dict(d)
    r = c.func(SK)()._prep_lag(d)
    c.eq("endogenous", r["yend"], c.np.hstack(ye + [W @ d["y"]]))
    c.eq("instruments", r["q"], c.np.hstack(q))
    c.same("the caller's dictionary is unchanged", sorted(d), sorted(keys))
    c.true("the rest is passed on", all(r[v] is d[v] for v in ("y", "x", "w")))
    c.frame("inputs unchanged", d["y"], d["x"])
