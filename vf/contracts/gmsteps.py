"""Stage structure shared by the het / hom GM estimators: call recorders (callee contracts) and concrete references."""
import numpy as np

from . import common as K


class Rec:
    pass


def recorders(c, n, k, x=None, kz=None, kh=None):
    """replace the stage functions by recorders returning arbitrary (fresh) results."""
    R = Rec()
    R.ols, R.tsls, R.mom, R.opt, R.vc = [], [], [], [], []
    R.lams, R.bs = [], []

    def ols(self, y, x, robust=None, gwk=None, sig2n_k=True):
        b = c.array("b%d" % len(R.ols), k, 1)
        R.ols.append(dict(y=y, x=x, b=b, robust=robust, o=self))
        self.y, self.x, self.n, self.k, self.betas = y, x, n, k, b
        self.xtx = x.T @ x
        self.u = y - x @ b
    R.ols_init = ols

    if kz is not None:
        R.z, R.h = c.array("Z", n, kz), c.array("H", n, kh)

        def tsls(self, y, x, yend, q=None, h=None, robust=None, gwk=None, sig2n_k=False):
            i = len(R.tsls)
            b = c.array("b%d" % i, kz, 1)
            R.tsls.append(dict(y=y, x=x, yend=yend, q=q, h=h, b=b, robust=robust, o=self))
            self.y, self.x, self.yend, self.q, self.n, self.k, self.h = y, x, yend, q, n, kz, R.h
            self.z = R.z if i == 0 else c.array("Zs%d" % i, n, kz)
            self.betas = b
            self.u = y - self.z @ b
            self.hth = R.h.T @ R.h
            self.hthi = "hthi"
            self._cache = {"pfora1a2": "P%d" % i}
        R.tsls_init = tsls

    def opt(m, vcX=None, all_par=False, start=None, hard_bound=False):
        lam = c.scalar("lam%d" % len(R.opt))
        R.opt.append(dict(m=m, vc=vcX, hb=hard_bound, lam=lam))
        R.lams.append(lam)
        return lam
    R.optim = opt
    return R


def run(c, f):
    """(result, refused) where refused means spreg raised a plain Exception (out-of-bounds refusal)."""
    try:
        return f(), False
    except Exception as e:
        if type(e) is not Exception:
            raise
        return None, True


# ------------------------------------------------------------------ concrete references (dense textbook formulas)
def psi_het(W, A1, u, lam, P=None, zs=None, h=None, filt=True):
    n = W.shape[0]
    us = K.filt(W, lam, u)
    S = np.diag(us[:, 0] ** 2)
    As = [A1 + A1.T, W + W.T]
    psi = np.array([[np.trace(a @ S @ b @ S) for b in As] for a in As]) / (2.0 * n)
    if P is None:
        return psi
    al = [-(zs.T @ (a @ us)) / n for a in As]
    a = [h @ P @ v for v in al]
    if not filt:
        a = [np.linalg.solve(np.eye(n) - lam * W.T, v) for v in a]
    psi = psi + np.array([[(p.T @ S @ q)[0, 0] for q in a] for p in a]) / n
    return psi, a, S


def a1_het(W):
    m = W.T @ W
    return m - np.diag(np.diag(m))


def a1_hom(W, sc):
    n = W.shape[0]
    t = np.trace(W.T @ W) / n
    return (W.T @ W - t * np.eye(n)) / ((1 + t ** 2) if sc else 1.0)


def mom2(A1, A2, W, u):
    """G, g with g - G (l, l^2)' = (e'A1e, e'A2e)'/n, e = u - l W u."""
    n = W.shape[0]
    wu = W @ u
    q = lambda a, M, b: (a.T @ M @ b)[0, 0]
    G = np.array([[q(u, A1 + A1.T, wu), -q(wu, A1, wu)], [q(u, A2 + A2.T, wu), -q(wu, A2, wu)]]) / n
    g = np.array([[q(u, A1, u)], [q(u, A2, u)]]) / n
    return [G, g]


def opt_(c, m, vc=None):
    f = c.func("utils:optim_moments")
    v = float(f(m) if vc is None else f(m, vc))
    if not hasattr(c, "steps_seen"):
        c.steps_seen = []
    c.steps_seen.append(v)
    return v


def out_of_bounds(c):
    """some step of the reference ended at the bounds of lambda."""
    return any(abs(v) >= 0.99 - 1e-6 for v in c.steps_seen)


def het_ref(c, y, X, W, max_iter=1, step1c=False, eps=1e-5):
    n = X.shape[0]
    A1 = a1_het(W)
    b, u = K.ols_ref(y, X)
    m = mom2(A1, W, W, u)
    lam = opt_(c, m)
    if step1c:
        lam = opt_(c, m, psi_het(W, A1, u, lam))
    it = 0
    while it < max_iter:
        b, _ = K.ols_ref(K.filt(W, lam, y), K.filt(W, lam, X))
        u = y - X @ b
        m = mom2(A1, W, W, u)
        l2 = opt_(c, m, psi_het(W, A1, u, lam))
        d, lam = abs(l2 - lam), l2
        it += 1
        if not d > eps:
            break
    psi = psi_het(W, A1, u, lam)
    xs, us = K.filt(W, lam, X), K.filt(W, lam, u)
    xi = np.linalg.inv(xs.T @ xs)
    J = m[0] @ np.array([[1.0], [2 * lam]])
    k = X.shape[1]
    V = np.zeros((k + 1, k + 1))
    V[:k, :k] = xi @ ((xs * us).T @ (xs * us)) @ xi
    V[k:, k:] = np.linalg.inv(J.T @ np.linalg.inv(psi) @ J) / n
    return np.vstack((b, [[lam]])), u, V, us, it


def p_mat(z, h):
    n = z.shape[0]
    hi = np.linalg.inv(h.T @ h)
    return n * (hi @ h.T @ z @ np.linalg.inv(z.T @ h @ hi @ h.T @ z))


def het_endog_ref(c, y, X, ye, q, W, max_iter=1, step1c=False, eps=1e-5):
    n = X.shape[0]
    z, h = np.hstack((X, ye)), np.hstack((X, q))
    A1 = a1_het(W)
    b, u, _ = K.tsls_ref(y, z, h)
    trail = [b]
    m = mom2(A1, W, W, u)
    lam = opt_(c, m)
    if step1c:
        psi, _, _ = psi_het(W, A1, u, lam, p_mat(z, h), K.filt(W, lam, z), h, filt=False)
        lam = opt_(c, m, psi)
    it = 0
    while it < max_iter:
        zs = K.filt(W, lam, z)
        b, _, _ = K.tsls_ref(K.filt(W, lam, y), zs, h)
        trail.append(b)
        u = y - z @ b
        psi, _, _ = psi_het(W, A1, u, lam, p_mat(zs, h), zs, h)
        m = mom2(A1, W, W, u)
        l2 = opt_(c, m, psi)
        d, lam = abs(l2 - lam), l2
        it += 1
        if not d > eps:
            break
    zs = K.filt(W, lam, z)
    P = p_mat(zs, h)
    psi, a, S = psi_het(W, A1, u, lam, P, zs, h)
    J = m[0] @ np.array([[1.0], [2 * lam]])
    pi = np.linalg.inv(psi)
    o = np.linalg.inv(J.T @ pi @ J) @ J.T @ pi
    L = np.vstack([np.hstack([P.T, np.zeros((P.shape[1], 2))]), np.hstack([np.zeros((1, P.shape[0])), o])])
    A = np.hstack(a)
    big = np.vstack([np.hstack([h.T @ S @ h / n, h.T @ S @ A / n]), np.hstack([A.T @ S @ h / n, psi])])
    return np.vstack((b, [[lam]])), u, L @ big @ L.T / n, K.filt(W, lam, u), it, trail


def psi_hom(W, A1, A2, u, lam, zs=None, h=None):
    n = W.shape[0]
    us = K.filt(W, lam, u)
    s2, m3, m4 = float((us ** 2).mean()), float((us ** 3).mean()), float((us ** 4).mean())
    d = np.diag(A1)[:, None]
    p11 = 2 * s2 ** 2 * np.trace(A1 @ A1) + (m4 - 3 * s2 ** 2) * float((d ** 2).sum())
    p12 = 2 * s2 ** 2 * np.trace(A1 @ A2)
    p22 = 2 * s2 ** 2 * np.trace(A2 @ A2)
    a = P = None
    if zs is not None:
        P = p_mat(zs, h)
        a = [h @ P @ (-2.0 / n * (zs.T @ (A @ us))) for A in (A1, A2)]
        p11 += s2 * (a[0] ** 2).sum() + 2 * m3 * (a[0] * d).sum()
        p12 += s2 * (a[0] * a[1]).sum() + m3 * (a[1] * d).sum()
        p22 += s2 * (a[1] ** 2).sum()
    return np.array([[p11, p12], [p12, p22]]) / n, a, P, s2, m3, d


def hom_a(W, A1):
    return a1_het(W) if A1 == "het" else a1_hom(W, A1 == "hom_sc")


def hom_ref(c, y, X, W, max_iter=1, A1="hom_sc", eps=1e-5):
    n, k = X.shape
    A1, A2 = hom_a(W, A1), (W + W.T) / 2
    b, u = K.ols_ref(y, X)
    m = mom2(A1, A2, W, u)
    lam = opt_(c, m)
    it = 0
    while it < max_iter:
        b, _ = K.ols_ref(K.filt(W, lam, y), K.filt(W, lam, X))
        u = y - X @ b
        m = mom2(A1, A2, W, u)
        l2 = opt_(c, m, psi_hom(W, A1, A2, u, lam)[0])
        d, lam = abs(l2 - lam), l2
        it += 1
        if not d > eps:
            break
    psi, _, _, s2, m3, dv = psi_hom(W, A1, A2, u, lam)
    xs = K.filt(W, lam, X)
    xi = np.linalg.inv(xs.T @ xs)
    J = m[0] @ np.array([[1.0], [2 * lam]])
    pi = np.linalg.inv(psi)
    V = np.zeros((k + 1, k + 1))
    V[:k, :k] = s2 * xi
    V[k:, k:] = np.linalg.inv(J.T @ pi @ J) / n
    psiDL = m3 * X.T @ np.hstack([dv, np.zeros((n, 1))]) / n
    V[:k, k:] = (n * xi) @ psiDL @ pi @ J @ V[k:, k:]
    V[k:, :k] = V[:k, k:].T
    return np.vstack((b, [[lam]])), u, V, K.filt(W, lam, u), it, s2


def hom_endog_ref(c, y, X, ye, q, W, max_iter=1, A1="hom_sc", eps=1e-5):
    n = X.shape[0]
    z, h = np.hstack((X, ye)), np.hstack((X, q))
    A1, A2 = hom_a(W, A1), (W + W.T) / 2
    b, u, _ = K.tsls_ref(y, z, h)
    m = mom2(A1, A2, W, u)
    lam = opt_(c, m)
    it = 0
    while it < max_iter:
        zs = K.filt(W, lam, z)
        b, _, _ = K.tsls_ref(K.filt(W, lam, y), zs, h)
        u = y - z @ b
        m = mom2(A1, A2, W, u)
        l2 = opt_(c, m, psi_hom(W, A1, A2, u, lam, zs, h)[0])
        d, lam = abs(l2 - lam), l2
        it += 1
        if not d > eps:
            break
    zs = K.filt(W, lam, z)
    psi, a, P, s2, m3, dv = psi_hom(W, A1, A2, u, lam, zs, h)
    J = m[0] @ np.array([[1.0], [2 * lam]])
    pi = np.linalg.inv(psi)
    LL = np.linalg.inv(J.T @ pi @ J) / n
    DD = s2 * np.linalg.inv(zs.T @ h @ np.linalg.inv(h.T @ h) @ h.T @ zs)
    DLp = (m3 * h.T @ np.hstack([dv, np.zeros((n, 1))]) + s2 * h.T @ np.hstack(a)) / n
    DL = P.T @ DLp @ pi @ J @ LL
    V = np.vstack([np.hstack([DD, DL]), np.hstack([DL.T, LL])])
    return np.vstack((b, [[lam]])), u, V, K.filt(W, lam, u), it, s2
