"""Bottom-up rewriting of terms, including inside the definitions of compound heads."""
from . import terms as T
from . import arr as A
from .terms import Expr, HEADS, ZERO, Unsupported, canon, mkhead
from .arr import Arr, fv


class Rewriter:
    """leaf(head) -> Expr in params -1,-2,.. (or None to keep the head)."""

    def __init__(self, leaf):
        self.leaf = leaf
        self.memo = {}
        self.dep = {}

    def touched(self, h):
        """does head h (transitively) contain a head that leaf() rewrites?"""
        r = self.dep.get(h)
        if r is not None:
            return r
        self.dep[h] = False
        r = self.leaf(h) is not None
        if not r:
            for e in children(HEADS[h]):
                if any(self.touched(x) for x in e.heads()):
                    r = True
                    break
        self.dep[h] = r
        return r

    def head(self, h):
        """Expr (in params) replacing head h, or None."""
        if h in self.memo:
            return self.memo[h]
        if not self.touched(h):
            self.memo[h] = None
            return None
        r = self.leaf(h)
        if r is None:
            r = self.rebuild(h)
        self.memo[h] = r
        return r

    def arr(self, m):
        return type(m)(m.dims, {k: self.expr(b) for k, b in m.blocks.items()})

    def rebuild(self, h):
        from . import shims as S
        H = HEADS[h]
        k = H.kind
        if k == "fn":
            a = self.expr(H.arg)
            if H.extra == "abs":
                return A.fn_abs(a)
            if H.extra == "log":
                return S.e_log(a)
            return T.apply_fn(H.extra, a)
        if k in ("poly", "let"):
            return self.expr(H.arg)
        if k == "inv":
            a = self.expr(H.arg)
            r = S.inv_expr(a.subst({-1: fv(0), -2: fv(1)}), H.extra)
            return r.subst({fv(0): -1, fv(1): -2})
        if k == "logdet":
            return S.logdet_expr(self.arr(H.extra))
        if k == "det":
            return S.la_det(self.arr(H.extra)).e
        if k == "LUdiag":
            return S._U(self.arr(H.extra))._d.get((0,)).subst({fv(0): -1})
        if k == "eig":
            return S.eig_head(self.arr(H.extra)).get((0,)).subst({fv(0): -1})
        if k == "fnn":
            name, xs = H.extra
            xs = [self.expr(x) for x in xs]
            if H.arg is not None:
                tag = name + "".join("|" + x.key() for x in xs)
                return S._tag_fn(tag, name, self.expr(H.arg), xs)
            return S._fnn(name, *[A.Sc(x) for x in xs]).e
        if k == "opq":
            name, m, kk = H.extra
            r = S.opaque_matrix_fn(name, self.arr(m), dims=H.arg)
            e = r.get(kk)
            ix = []
            for a in range(len(r.dims)):
                ix += [fv(a, p) for p in range(len(r.dims[a][kk[a]]))]
            return e.subst({v: -(i + 1) for i, v in enumerate(ix)})
        if k == "argmin":
            ve, b = H.extra
            return S.mk_argmin(self.expr(ve), [self.expr(x) for x in b] if b else None)
        raise Unsupported("rewriting under head kind %s (%s)" % (k, h))

    def expr(self, e):
        if not any(self.touched(h) for h in e.heads()):
            return e
        out = ZERO
        for (fs, b), c in e.d.items():
            keep = [f for f in fs if not self.touched(f[0])]
            cur = [(keep, {i: s for i, s in enumerate(b)}, c)]
            for h, ix, x in fs:
                if not self.touched(h):
                    continue
                d = self.head(h)
                if isinstance(x, int) and x > 0:
                    times = x
                else:
                    d, times = T.powr(d, x), 1
                for _ in range(times):
                    nxt = []
                    for f0, b0, c0 in cur:
                        off = max(list(b0) + [-1]) + 1
                        for (pf, pb), pc in d.d.items():
                            nf = [(hh, tuple((i + off) if i >= 0 else ix[-i - 1] for i in iix), ee) for hh, iix, ee in pf]
                            nb = dict(b0)
                            for i, s in enumerate(pb):
                                nb[off + i] = s
                            nxt.append((f0 + nf, nb, c0 * pc))
                    cur = nxt
                    if len(cur) > T.LIMIT_MONOS:
                        raise T.TooBig("rewriting")
            for f0, b0, c0 in cur:
                out = out + canon(f0, b0).scale(c0)
        return out


def children(H):
    out = []
    if isinstance(H.arg, Expr):
        out.append(H.arg)

    def walk(x):
        if isinstance(x, Expr):
            out.append(x)
        elif isinstance(x, Arr):
            out.extend(x._blocks.values())
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(H.extra)
    return out


def subst_scalar(e, head, val):
    return Rewriter(lambda h: val if h == head else None).expr(e)


_UNF = None


def unfold_rw():
    return Rewriter(lambda h: UNF.expr(HEADS[h].arg) if HEADS[h].kind == "let" else None)


class _Unfolder(Rewriter):
    def __init__(self):
        super().__init__(lambda h: True if HEADS[h].kind == "let" else None)

    def head(self, h):
        if h in self.memo:
            return self.memo[h]
        if HEADS[h].kind == "let":
            self.memo[h] = r = self.expr(HEADS[h].arg)
            return r
        return super().head(h)

    def rebuild(self, h):
        return super().rebuild(h)


UNF = _Unfolder()


def unfold(e):
    old = A.LETMAX[0]
    A.LETMAX[0] = None
    try:
        return UNF.expr(e)
    finally:
        A.LETMAX[0] = old
