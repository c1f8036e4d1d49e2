"""numpy / scipy / libpysal look-alikes seen by the code under symbolic execution."""
import builtins
import types
from fractions import Fraction
import numpy as _np

from . import terms as T
from . import arr as A
from .terms import Expr, Unsupported, ZERO, ONE, HEADS, mkhead, DELTA
from .arr import (Arr, Sc, SymInt, SymBool, BoolArr, ndarray, matrix, csr_matrix, csc_matrix, dia_matrix,
                  csr_array, as_arr, is_num, expr_of, mkint, fv, frac, dim_of, dim_expr, ONE_DIM)


class Stub:
    """an unmodelled library object: importable, unusable."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Stub(self._name + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported("unmodelled library call %s" % self._name)

    def __mro_entries__(self, bases):
        return ()

    def __iter__(self):
        raise Unsupported("unmodelled library object %s" % self._name)

    def __repr__(self):
        return "<stub %s>" % self._name


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Stub(self.__name__ + "." + k)


def is_sym(x, depth=0):
    if isinstance(x, (Arr, Sc, SymBool, BoolArr)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(is_sym(i, depth + 1) for i in x)
    return False


def numeric_nested(x):
    if isinstance(x, (list, tuple)):
        return bool(x) and all(numeric_nested(i) for i in x)
    if isinstance(x, bool):
        return False
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in "iuf"
    return is_num(x) or isinstance(x, (Arr, Sc))


# ------------------------------------------------------------------ numpy functions
def np_array(x, dtype=None, **kw):
    if is_sym(x):
        return A.array(x)
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (bool, _np.bool_)) for v in x):
        return _np.array(x)
    if numeric_nested(x):
        try:
            return A.array(x)
        except (Unsupported, ValueError, OverflowError):
            return _np.array(x, dtype=dtype)
    return _np.array(x) if dtype is None else _np.array(x, dtype=dtype)


def np_asarray(x, *a, **k):
    if isinstance(x, ndarray):
        return x
    if isinstance(x, Arr):
        return ndarray(x.dims, dict(x.blocks))
    return np_array(x)


def _densecheck(*xs):
    for x in xs:
        if isinstance(x, Arr) and x._issp:
            raise Unsupported("numpy function applied to a sparse matrix")


def np_dot(a, b, out=None):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a._issp != b._issp:
            raise Unsupported("np.dot mixing sparse and dense")
        return A.matmul(a, b)
    if isinstance(a, Sc) or is_num(a) or isinstance(b, Sc) or is_num(b):
        return a * b
    return A.matmul(as_arr(a), as_arr(b))


def np_zeros(shape, dtype=None, order=None):
    return A.full(shape, 0)


def np_ones(shape, dtype=None, order=None):
    return A.full(shape, 1)


def np_full(shape, v, dtype=None):
    return A.full(shape, v)


def np_eye(n, m=None, k=0, dtype=None, **kw):
    if k:
        raise Unsupported("eye(k)")
    return A.eye_arr(n)


def np_sum(x, axis=None, **kw):
    if isinstance(x, Arr):
        return x.sum(axis, **{k: v for k, v in kw.items() if k == "keepdims"})
    if isinstance(x, Sc):
        return x
    if isinstance(x, BoolArr) and axis is None:
        return x.sum()
    if is_sym(x):
        return as_arr(x).sum(axis)
    if numeric_nested(x) or isinstance(x, _np.ndarray):
        return _np.sum(x, axis=axis)
    raise Unsupported("np.sum of %s" % type(x).__name__)


def np_mean(x, axis=None, **kw):
    return as_arr(x).mean(axis)


def np_var(x, axis=None, ddof=0, **kw):
    x = as_arr(x)
    n = x.size if axis is None else x.shape[axis]
    if axis is None:
        m = x.mean()
        return ((x - m) ** 2).sum() / (n - ddof)
    m = x.mean(axis)
    m = A.insert_axis(m, axis)
    return ((x - m) ** 2).sum(axis) / (n - ddof)


def np_std(x, axis=None, ddof=0, **kw):
    return np_sqrt(np_var(x, axis, ddof))


def _sign(e):
    """'+', '0' or None (undecided): sums of products of positive heads with positive coefficients are positive."""
    if e.is_zero():
        return "0"
    return "+" if all(c > 0 and not m[1] and all(f[0] != T.DELTA and HEADS[f[0]].pos for f in m[0]) for m, c in e.d.items()) else None


def _ufunc_into(f, zero, x, out, where):
    """ufunc with out= (and a where= mask that is decided block by block)."""
    x = as_arr(x)
    if out is None:
        raise Unsupported("where= without out=")
    new = {}
    for k in x.keys_all():
        e = x.get(k)
        on = where
        if where is not True:
            if not isinstance(where, A.BoolArr) or where.arr.dims != x.dims or where.op not in (">", "!="):
                raise Unsupported("where= mask")
            sg = _sign(where.arr.get(k))
            if sg is None:
                raise Unsupported("where= mask undecided")
            on = sg == "+"
        new[k] = (zero if zero is not None and not e.d else f(e)) if on else out.get(k)
    out[:] = ndarray(x.dims, new)
    return out


def elem(f, zero):
    def g(x, *a, out=None, where=True, **kw):
        if a:
            raise Unsupported("positional out argument")
        if out is not None or where is not True:
            return _ufunc_into(f, zero, x, out, where)
        if isinstance(x, Sc):
            return Sc(f(x.e))
        if is_num(x):
            return Sc(f(Expr.const(frac(x))))
        x = as_arr(x)
        return x.map(f, zero, cls=ndarray if not x._issp and not isinstance(x, matrix) else None)
    return g


def e_log(e):
    if e.is_const() and e.const_value() == 1:
        return ZERO
    if e.is_const() and e.const_value() <= 0:
        raise Unsupported("log of non-positive constant")
    # logabs det of determinants
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if c == 1 and len(m[0]) == 1 and not m[1] and m[0][0][2] == 1:
            H = HEADS[m[0][0][0]]
            if H.kind == "det":
                return logdet_expr(H.extra)
            if H.kind == "fn" and H.extra == "abs":
                (m2, c2), = H.arg.d.items() if len(H.arg.d) == 1 else ((None, None),)
                if m2 and c2 == 1 and len(m2[0]) == 1 and not m2[1] and HEADS[m2[0][0][0]].kind == "det" and m2[0][0][2] == 1:
                    return logdet_expr(HEADS[m2[0][0][0]].extra)
            if H.kind == "fn" and H.extra == "exp":
                return H.arg
    return _log_split(e)


def _log_split(e):
    """log(c * positive factors * rest) = log c + sum p log(factor) + log(rest), c > 0 (numbers split into primes)."""
    if e.is_const():
        return _log_num(e.const_value())
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if m[1] or any(f[0] == T.DELTA for f in m[0]):
            return T.apply_fn("log", e)
        pos = [f for f in m[0] if HEADS[f[0]].pos and not f[1]]
        rest = T.canon([f for f in m[0] if f not in pos], {}) if len(pos) < len(m[0]) else None
        sg = 1
        if c < 0:
            sg = -1
            if rest is None:
                raise Unsupported("log of a negative term")
    else:
        c, scal, core = T.content(e)
        pos = [f for f in scal if HEADS[f[0]].pos]
        rest = core
        for f in scal:
            if f not in pos:
                rest = rest * T.canon([f], {})
        sg = 1 if c > 0 else -1
    out = _log_num(abs(c))
    for h, ix, x in pos:
        H = HEADS[h]
        if H.kind == "fn" and H.extra == "exp":
            out = out + H.arg.scale(x)
        elif H.kind == "num" and isinstance(H.arg, (int, Fraction)):
            out = out + _log_num(H.arg).scale(x)
        else:
            out = out + T.apply_fn("log", Expr.factor(h)).scale(x)
    if rest is not None:
        out = out + T.apply_fn("log", rest.scale(sg))
    return out


def _log_num(c):
    c = Fraction(c)
    out = ZERO
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while p * p <= v and p < 1000:
            while v % p == 0:
                out = out + T.apply_fn("log", Expr.const(p)).scale(s)
                v //= p
            p += 1
        if v > 1:
            out = out + T.apply_fn("log", Expr.const(v)).scale(s)
    return out


def e_exp(e):
    if e.is_zero():
        return ONE
    return T.apply_fn("exp", e)


np_log = elem(e_log, None)
np_exp = elem(e_exp, ONE)
np_sqrt = elem(lambda e: T.powr(e, Fraction(1, 2)), ZERO)
np_abs = elem(A.fn_abs, ZERO)
np_square = elem(lambda e: e * e, ZERO)


def np_power(x, p):
    return x ** p


def _stackargs(seq):
    return [as_arr(s) for s in seq]


def _at2(s):
    if s.ndim == 0:
        return A.scalar_arr(s.get(()), 2)
    if s.ndim == 1:
        return A.insert_axis(s, 0, ndarray)
    return s


def _res_cls(seq):
    if any(isinstance(s, matrix) for s in seq):
        return matrix
    _densecheck(*seq)
    return ndarray


def np_hstack(seq, **kw):
    seq = _stackargs(seq)
    cls = _res_cls(seq)
    if all(s.ndim <= 1 for s in seq):
        seq = [A.scalar_arr(s.get(()), 1) if s.ndim == 0 else s for s in seq]
        return A.stack_axis(seq, 0, cls)
    return A.stack_axis(seq, 1, cls)


def np_vstack(seq, **kw):
    seq = [_at2(s) for s in _stackargs(seq)]
    return A.stack_axis(seq, 0, _res_cls(seq))


def np_concatenate(seq, axis=0, **kw):
    seq = _stackargs(seq)
    return A.stack_axis(seq, axis, _res_cls(seq))


def np_column_stack(seq):
    seq = [A.insert_axis(s, 1, ndarray) if s.ndim == 1 else s for s in _stackargs(seq)]
    return A.stack_axis(seq, 1)


def np_stack(seq, axis=0):
    seq = _stackargs(seq)
    return A.stack_axis([A.insert_axis(s, axis, ndarray) for s in seq], axis)


def np_diag(x, k=0):
    if k:
        raise Unsupported("diag(k)")
    x = as_arr(x)
    _densecheck(x)
    return A.diag_matrix(x) if x.ndim == 1 else A.diagonal(x)


def np_diagflat(x):
    return A.diag_matrix(as_arr(x).flatten())


def np_trace(x):
    return A.diagonal(as_arr(x)).sum()


def np_transpose(x, axes=None):
    return as_arr(x).T


def np_reshape(x, shp, order="C"):
    return A.reshape(as_arr(x), shp, order)


def np_kron(a, b):
    return kron_arr(as_arr(a), as_arr(b))


def kron_arr(a, b, cls=None):
    a, b = as_arr(a), as_arr(b)
    nd = max(a.ndim, b.ndim)
    a, b = A.pad_axes(a, nd), A.pad_axes(b, nd)
    dims = []
    for da, db in zip(a.dims, b.dims):
        dims.append(tuple(sa + sb for sa in da for sb in db))
    out = {}
    for ka, ea in a.blocks.items():
        la_ = [len(a.dims[i][ka[i]]) for i in range(nd)]
        for kb, eb in b.blocks.items():
            mp = {}
            for i in range(nd):
                for p in range(len(b.dims[i][kb[i]])):
                    mp[fv(i, p)] = fv(i, p + la_[i])
            eb2 = eb.subst(mp) if any(la_) else eb
            key = tuple(ka[i] * len(b.dims[i]) + kb[i] for i in range(nd))
            out[key] = ea * eb2
    return (cls or ndarray)(dims, out)


def np_outer(a, b):
    a, b = as_arr(a).flatten(), as_arr(b).flatten()
    return A.matmul(A.insert_axis(a, 1, ndarray), A.insert_axis(b, 0, ndarray))


def np_tile(x, reps):
    if isinstance(x, _np.ndarray):
        return _np.tile(x, reps)
    x = as_arr(x)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    nd = max(len(reps), x.ndim)
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    x = A.pad_axes(x, nd)
    one = A.full(tuple(reps), 1)
    return kron_arr(one, ndarray(x.dims, x.blocks))


def np_repeat(x, n, axis=None):
    x = as_arr(x)
    if axis is None:
        x = x.flatten()
        axis = 0
    one = A.full(tuple(n if i == axis else 1 for i in range(x.ndim)), 1)
    return kron_arr(x, one)


def np_where(c, *a):
    if isinstance(c, (BoolArr, SymBool)) or is_sym(a):
        raise Unsupported("np.where on symbolic data")
    return _np.where(c, *a)


def np_einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ops = [as_arr(o) for o in ops]
    if any(len(d) != 1 for o in ops for d in o.dims) or any(len(d[0]) > 1 for o in ops for d in o.dims):
        raise Unsupported("einsum on blocked arrays")
    letters = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.dims):
            if c in letters and letters[c] != d:
                raise Unsupported("einsum shape mismatch")
            letters[c] = d
    order = list(letters)
    e = ONE
    for s, o in zip(ins, ops):
        mp = {fv(i): -(500 + order.index(c)) for i, c in enumerate(s)}
        e = e * o.get((0,) * o.ndim).subst(mp)
    for i, c in enumerate(order):
        if c not in out and letters[c][0]:
            e = e.sum_over(-(500 + i), letters[c][0][0])
    e = e.subst({-(500 + order.index(c)): fv(i) for i, c in enumerate(out)})
    if not out:
        return Sc(e)
    return ndarray(tuple(letters[c] for c in out), {(0,) * len(out): e})


def np_delete(x, idx, axis=None):
    if not is_sym(x):
        return _np.delete(x, idx, axis)
    if axis is None:
        raise Unsupported("delete without axis")
    m = len(x.dims[axis])
    if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], _np.ndarray):
        idx = idx[0]
    if isinstance(idx, _np.ndarray):
        idx = [int(i) for i in idx.reshape(-1)]
    if not isinstance(idx, (list, tuple)):
        idx = [idx]
    drop = set()
    for i in idx:
        p, _ = A.axis_select(x.dims[axis], i)
        drop.update(p)
    keep = [i for i in range(m) if i not in drop]
    key = tuple(slice(None) if a != axis else None for a in range(x.ndim))
    # select by segment position
    out = {}
    for k, e in x.blocks.items():
        if k[axis] in drop:
            continue
        out[k[:axis] + (keep.index(k[axis]),) + k[axis + 1:]] = e
    dims = list(x.dims)
    dims[axis] = tuple(x.dims[axis][i] for i in keep)
    return ndarray(dims, out)


def np_insert(*a, **k):
    raise Unsupported("np.insert")


def np_isnan(x):
    if is_sym(x):
        return A.BoolArr(as_arr(x) * 0, "!=") if not isinstance(x, Sc) else False
    return _np.isnan(x)


class _Const:
    def __init__(self, v): self.v = v
    def all(self, *a): return self.v
    def any(self, *a): return self.v
    def __bool__(self): return self.v


def np_isfinite(x):
    """symbolic data are finite unless the contract says otherwise (ctx.spoil)."""
    if is_sym(x):
        return _Const(not A.has_nonfinite(as_arr(x)))
    return _np.isfinite(x)


def np_allclose(a, b, *q, **kw):
    """decided only when both sides have the same normal form (exact equality); otherwise outside the dialect."""
    if not is_sym(a) and not is_sym(b):
        return _np.allclose(a, b, *q, **kw)
    d = as_arr(a) - as_arr(b)
    if all(d.get(k).is_zero() for k in d.keys_all()):
        return True
    raise Unsupported("numpy.allclose of different symbolic arrays")


def np_issubdtype(t, u):
    if isinstance(t, A.DType):
        return bool(_np.issubdtype(_np.float64, u))
    return _np.issubdtype(t, u)


def np_ptp(x, axis=None):
    """ranges of the columns of a matrix of single columns: opaque, non-negative."""
    if not is_sym(x):
        return _np.ptp(x, axis=axis)
    x = as_arr(x)
    if axis != 0 or x.ndim != 2 or any(not A.seg_expr(sg).is_const() or A.seg_expr(sg).const_value() != 1 for sg in x.dims[1]):
        raise Unsupported("ptp")
    out = _np.empty(len(x.dims[1]), dtype=object)
    for j in range(len(x.dims[1])):
        col = x[:, j]
        out[j] = Sc(A.fn_abs(expr_of(col.max()) - expr_of(col.min())))
    return out


def deleg(name):
    rf = getattr(_np, name)

    def f(*a, **k):
        if any(is_sym(x) for x in a):
            raise Unsupported("np.%s on symbolic data" % name)
        return rf(*a, **k)
    return f


# ------------------------------------------------------------------ linalg
def square_single(m):
    return m.ndim == 2 and m.dims[0] == m.dims[1] and len(m.dims[0]) == 1 and len(m.dims[0][0]) == 1


def la_inv(m):
    m = as_arr(m)
    cls = type(m)
    if m.ndim != 2:
        raise Unsupported("inv of ndim %d" % m.ndim)
    if m.dims[0] != m.dims[1]:
        raise Unsupported("inverse of a non-square array %s x %s" % (dim_expr(m.dims[0]), dim_expr(m.dims[1])))
    d = m.dims[0]
    if d == ONE_DIM:
        return cls(m.dims, {(0, 0): T.powr(m.single(), -1)})
    if A.is_diag(m):
        dg = A.diagonal(m)
        return A.diag_matrix(dg.map(lambda e: T.powr(e, -1), None), cls)
    if square_single(m):
        e = m.single()
        return cls(m.dims, {(0, 0): inv_expr(e, d[0][0])})
    # block diagonal (up to the connected groups of segments) -> groupwise
    grp = list(range(len(d)))

    def find(x):
        while grp[x] != x:
            x = grp[x]
        return x
    for i, k in m.blocks:
        grp[find(i)] = find(k)
    comps = {}
    for i in range(len(d)):
        comps.setdefault(find(i), []).append(i)
    if len(comps) > 1:
        out = {}
        for ids in comps.values():
            dd = tuple(d[i] for i in ids)
            sub = cls((dd, dd), {(ids.index(i), ids.index(k)): e for (i, k), e in m.blocks.items() if i in ids})
            for (i, k), e in la_inv(sub).blocks.items():
                out[(ids[i], ids[k])] = e
        return cls(m.dims, out)
    if all(s == () for s in d) and len(d) == 2:
        a, b, c, e = (m.get(k) for k in ((0, 0), (0, 1), (1, 0), (1, 1)))
        det = a * e - b * c
        di = T.powr(det, -1)
        return cls(m.dims, {(0, 0): e * di, (0, 1): -(b * di), (1, 0): -(c * di), (1, 1): a * di})
    return opaque_matrix_fn("binv", m, cls)


def inv_expr(e, size):
    """inverse of a square one-segment matrix given by Expr in (-1 -> axis0, axis1)."""
    q = e.subst({fv(1): -2, fv(0): -1})
    # inv(inv(M)), inv(c*inv(M))
    if len(q.d) == 1:
        (m, c), = q.d.items()
        idxf = [f for f in m[0] if f[1]]
        if len(idxf) == 1 and HEADS[idxf[0][0]].kind == "inv" and not m[1] and idxf[0][2] == 1:
            H = HEADS[idxf[0][0]]
            scal = [f for f in m[0] if not f[1]]
            s = T.canon([(h, ix, -x) for h, ix, x in scal], {}).scale(1 / c)
            base = H.arg if idxf[0][1] == (-1, -2) else H.arg.subst({-1: -2, -2: -1})
            return (base * s).subst({-2: fv(1), -1: fv(0)})
    cont, scal, core = T.content(q)
    tr = core.subst({-1: -2, -2: -1})
    sym = tr == core
    flip = False
    if not sym and repr(sorted((m, str(c)) for m, c in tr.d.items())) < repr(sorted((m, str(c)) for m, c in core.d.items())):
        core, flip = tr, True
        # the transpose may have a different leading coefficient
        c2, s2, core2 = T.content(core)
        if c2 != 1:
            core = core2
            cont = cont * c2
    key = "inv{%s}" % core.key()
    mkhead(key, "inv", arg=core, sym=sym, extra=size)
    ix = (fv(1), fv(0)) if flip else (fv(0), fv(1))
    r = Expr.factor(key, ix).scale(1 / cont)
    if scal:
        r = r * T.canon([(h, i, -x) for h, i, x in scal], {})
    return r


def opaque_matrix_fn(name, m, cls=ndarray, dims=None):
    """uninterpreted matrix-valued function of a whole (blocked) matrix."""
    key = A.arr_key(m)
    sym = m.ndim == 2 and m.dims[0] == m.dims[1] and A.arr_key(m.T) == key
    out = {}
    dims = dims or m.dims
    import itertools
    for k in itertools.product(*[range(len(d)) for d in dims]):
        kk, ixs = k, []
        for a in range(len(dims)):
            ixs += [fv(a, p) for p in range(len(dims[a][k[a]]))]
        flip = sym and len(k) == 2 and k[0] > k[1]
        if flip:
            kk = (k[1], k[0])
            ixs = [fv(1, p) for p in range(len(dims[1][k[1]]))] + [fv(0, p) for p in range(len(dims[0][k[0]]))]
        hk = "%s{%s}%s" % (name, key, ",".join(map(str, kk)))
        mkhead(hk, "opq", sym=(sym and len(k) == 2 and k[0] == k[1] and len(ixs) == 2), arg=dims, extra=(name, m, kk))
        out[k] = Expr.factor(hk, tuple(ixs))
    return cls(dims, out)


def opaque_scalar(name, *ms):
    key = "%s{%s}" % (name, ",".join(A.arr_key(as_arr(m)) for m in ms))
    mkhead(key, name, extra=ms[0] if len(ms) == 1 else ms)
    return Sc(Expr.factor(key))


def la_det(m):
    return opaque_scalar("det", as_arr(m))


def logdet_expr(m):
    key = "logdet{%s}" % A.arr_key(m)
    mkhead(key, "logdet", extra=m)
    return Expr.factor(key)


def logdet(m):
    return Sc(logdet_expr(as_arr(m)))


def la_slogdet(m):
    m = as_arr(m)
    return opaque_scalar("sgndet", m), Sc(logdet_expr(m))


def eig_head(m, tag="eig"):
    base = getattr(m, "eig_of", None) or m
    key = "%s{%s}" % (tag, A.arr_key(base))
    mkhead(key, "eig", extra=base)
    return ndarray((base.dims[0],), {(0,): Expr.factor(key, (fv(0),))})


def la_eigvals(m):
    m = as_arr(m)
    if not square_single(m):
        raise Unsupported("eigenvalues of a blocked matrix")
    return eig_head(m)


def la_eigh(m):
    m = as_arr(m)
    ev = la_eigvals(m)
    return ev, opaque_matrix_fn("evec", m)


def la_solve(a, b):
    return A.matmul(la_inv(a), as_arr(b))


def la_pinv(m):
    m = as_arr(m)
    if square_single(m):
        return la_inv(m)          # axiom: pinv of a nonsingular matrix is its inverse
    return opaque_matrix_fn("pinv", m, dims=m.dims[::-1])


def la_cholesky(m):
    return opaque_matrix_fn("chol", as_arr(m))


def la_norm(x, ord=None, *a, **k):
    x = as_arr(x)
    if a or k:
        raise Unsupported("norm along an axis")
    if not (ord is None or ord == "fro" and x.ndim == 2 or ord == 2 and x.ndim == 1):
        return opaque_scalar("norm%s" % ord, x)
    return np_sqrt((x * x).sum())


class _U:
    def __init__(self, m):
        key = "LUd{%s}" % A.arr_key(m)
        mkhead(key, "LUdiag", extra=m)
        if not square_single(m):
            raise Unsupported("LU of a blocked matrix")
        self._d = ndarray((m.dims[0],), {(0,): Expr.factor(key, (fv(0),))})

    def diagonal(self):
        return self._d


class SuperLU:
    def __init__(self, m, *a, **k):
        self._m = m
        self.U = _U(m)

    def solve(self, b):
        return A.matmul(la_inv(self._m), b)


def _logdet_rule(H):
    """sum_i log( |diag U|_i ) = log|det A| ; sum_i log(a + b eig_i(W)) = log|det(aI + bW)|."""
    e = H.arg
    heads = [(h, ix) for (fs, b) in e.d for h, ix, x in fs if ix]
    if len(e.d) == 1 and len(heads) == 1:
        h = HEADS[heads[0][0]]
        (m, c), = e.d.items()
        if h.kind == "fn" and h.extra == "abs" and c == 1 and len(m[0]) == 1:
            inner = h.arg
            if len(inner.d) == 1:
                (m2, c2), = inner.d.items()
                if c2 == 1 and len(m2[0]) == 1 and HEADS[m2[0][0][0]].kind == "LUdiag":
                    return logdet_expr(HEADS[m2[0][0][0]].extra)
    eigs = {h for h, ix in heads if HEADS[h].kind == "eig"}
    if len(eigs) == 1 and all(HEADS[h].kind == "eig" for h, ix in heads):
        hk = eigs.pop()
        base = HEADS[hk].extra
        c0, c1 = ZERO, ZERO
        for (fs, b), c in e.d.items():
            ef = [f for f in fs if f[0] == hk]
            rest = [f for f in fs if f[0] != hk]
            if b or len(ef) > 1 or (ef and ef[0][2] != 1):
                return None
            t = T.canon(rest, {}).scale(c)
            if ef:
                c1 = c1 + t
            else:
                c0 = c0 + t
        m = A.eye_arr(base.shape[0]) * Sc(c0) + ndarray(base.dims, base.blocks) * Sc(c1)
        return logdet_expr(m)
    return None


T.LOGDET_HOOK[0] = _logdet_rule


# ------------------------------------------------------------------ scipy.sparse
def sp_identity(n, dtype=None, format=None):
    return A.eye_arr(n, A.FORMATS.get(format, dia_matrix) if format else dia_matrix)


def sp_eye(m, n=None, k=0, dtype=None, format=None):
    return sp_identity(m, format=format)


def sp_kron(a, b, format=None):
    return kron_arr(as_arr(a), as_arr(b), A.FORMATS[format])


def _sp_list(x):
    return [i for i in x]


def sp_hstack(seq, format=None, dtype=None):
    seq = [as_arr(s) for s in seq]
    seq = [A.insert_axis(s, 0, csr_matrix) if s.ndim == 1 else s for s in seq]
    return A.stack_axis(seq, 1, A.FORMATS[format])


def sp_vstack(seq, format=None, dtype=None):
    return A.stack_axis([as_arr(s) for s in seq], 0, A.FORMATS[format])


def sp_diags(d, offsets=0, shape=None, format=None, dtype=None):
    if offsets not in (0, [0]):
        raise Unsupported("sparse diags offsets")
    d = as_arr(d)
    if d.ndim == 2:
        d = A.drop_axis(d, 0)
    return A.diag_matrix(d, A.FORMATS.get(format, dia_matrix))


def sp_issparse(x):
    return isinstance(x, Arr) and x._issp


class SparseCtor:
    """type object standing for scipy sparse classes: constructor + isinstance target."""


def mk_sparse_ctor(cls):
    class Meta(type):
        def __instancecheck__(self, x):
            return type(x) is cls

    class C(metaclass=Meta):
        def __new__(c, x, shape=None, **kw):
            if isinstance(x, tuple) and cls is dia_matrix and len(x) == 2:
                data, off = x
                if list(off) != [0] if isinstance(off, (list, tuple)) else off != 0:
                    raise Unsupported("dia_matrix offsets")
                v = as_arr(data)
                if v.ndim == 2:
                    v = A.drop_axis(v, 0)
                return A.diag_matrix(v, dia_matrix)
            if isinstance(x, tuple):
                if all(is_num(i) or isinstance(i, Sc) for i in x):
                    z = A.full(x, 0)
                    return cls(z.dims, {})
                raise Unsupported("sparse constructor from triplets")
            x = as_arr(x)
            if x.ndim == 1:
                x = A.insert_axis(x, 0, ndarray)
            return cls(x.dims, dict(x.blocks))
        dot = staticmethod(lambda a, b: A.matmul(a, b))
    C.__name__ = cls.__name__
    return C


CSR, CSC, DIA, CSRA = (mk_sparse_ctor(c) for c in (csr_matrix, csc_matrix, dia_matrix, csr_array))


# ------------------------------------------------------------------ distributions
def _fnn(name, *xs):
    xs = [as_arr(x) for x in xs]
    main = xs[0]
    if all(x.nelem_one() for x in xs):
        key = "%s{%s}" % (name, ",".join(x.single().key() for x in xs))
        mkhead(key, "fnn", extra=(name, [x.single() for x in xs]))
        e = Expr.factor(key)
        if main.ndim == 0:
            return Sc(e)
        return ndarray(main.dims, {(0,) * main.ndim: e})
    rest = xs[1:]
    if not all(x.nelem_one() for x in rest):
        raise Unsupported("vectorised distribution parameters")
    tag = name + "".join("|" + x.single().key() for x in rest)
    for x in rest:
        pass
    r = main.map(lambda e: _tag_fn(tag, name, e, [x.single() for x in rest]), None)
    return ndarray(r.dims, r._blocks)


def _tag_fn(tag, name, e, extra):
    p, idx = T._abstract_params(e)
    key = "%s{%s}" % (tag, p.key())
    mkhead(key, "fnn", arg=p, extra=(name, extra))
    return Expr.factor(key, idx)


def dist(name):
    def sf(x, *a, **kw):
        a = list(a) + list(kw.values())
        return _fnn(name + "_sf", x, *a)

    def cdf(x, *a, **kw):
        a = list(a) + list(kw.values())
        return 1 - _fnn(name + "_sf", x, *a)

    def pdf(x, *a, **kw):
        a = list(a) + list(kw.values())
        return _fnn(name + "_pdf", x, *a)
    return Mod("scipy.stats." + name, sf=sf, cdf=cdf, pdf=pdf)


# ------------------------------------------------------------------ optimisers (trusted, uninterpreted)
class OptRes:
    def __init__(self, x, fun):
        self.x, self.fun = x, fun
        self.success = True


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, options=None, tol=None):
    """trusted: returns the (uninterpreted) minimiser of the objective over bounds."""
    mkhead("~arg", "A")
    probe = Sc(Expr.factor("~arg"))
    v = fun(probe, *args)
    ve = expr_of(v) if not isinstance(v, Arr) else v.single()
    bs = [expr_of(b) for b in bounds] if bounds is not None else None
    xstar = mk_argmin(ve, bs)
    fstar = subst_head(ve, "~arg", xstar)
    res = ndarray((ONE_DIM,) * v.ndim, {(0,) * v.ndim: xstar}) if isinstance(v, Arr) and v.ndim else Sc(xstar)
    f = ndarray(v.dims, {(0,) * v.ndim: fstar}) if isinstance(v, Arr) and v.ndim else Sc(fstar)
    MINCALLS.append(dict(objective=ve, bounds=bs, x=xstar))
    return OptRes(res, f)


def mk_argmin(ve, bs):
    bkey = repr([b.key() for b in bs]) if bs is not None else "-"
    key = "argmin{%s;%s}" % (ve.key(), T.sha(bkey))
    mkhead(key, "argmin", extra=(ve, bs))
    return Expr.factor(key)


MINCALLS = []


def subst_head(e, head, val):
    """substitute a scalar head by an Expr everywhere, including inside heads."""
    from .rewrite import subst_scalar
    return subst_scalar(e, head, val)


# ------------------------------------------------------------------ libpysal
class SymW:
    """spatial weights object: n x n real matrix, ids 0..n-1 in order."""

    def __init__(self, name, n, sparse=None, transform="r"):
        self.n = n
        d = dim_of(n)
        if sparse is None:
            if name not in HEADS:
                mkhead(name, "A", extra="zd")
            sparse = csr_matrix((d, d), {(0, 0): Expr.factor(name, (fv(0), fv(1)))})
        self._sp = sparse
        self._transform = transform
        self.islands = []
        self.name = name
        self._cache = {}

    @property
    def sparse(self):
        return csr_matrix(self._sp.dims, dict(self._sp.blocks))

    def full(self):
        return ndarray(self._sp.dims, dict(self._sp.blocks)), SymIds(self.n)

    def to_sparse(self, fmt="coo"):
        return self.sparse

    @property
    def transform(self):
        return self._transform

    @transform.setter
    def transform(self, v):
        raise Unsupported("changing the weights transformation")

    @property
    def shape(self):
        raise AttributeError("shape")

    @property
    def id_order(self):
        return SymIds(self.n)

    @property
    def s0(self):
        return self._sp.sum()

    def asymmetry(self, intrinsic=True):
        """a general W is not structurally symmetric (the symmetric case is exercised concretely)."""
        return [(0, 1)]

    def get_transform(self):
        return self._transform

    @property
    def s1(self):
        return self.trcW2 + self.trcWtW          # (1/2) sum (w_ij + w_ji)^2

    @property
    def trcW2(self):
        return (self._sp @ self._sp).trace()

    @property
    def trcWtW(self):
        return (self._sp.T @ self._sp).trace()

    @property
    def trcWtW_WW(self):
        return self.trcW2 + self.trcWtW


class SymIds:
    def __init__(self, n):
        self.n = n


def lag_spatial(w, y):
    return w.sparse @ y if isinstance(y, Arr) else w.sparse @ as_arr(y)


# ------------------------------------------------------------------ module table
class _NdMeta(type):
    def __eq__(cls, o):
        return o is cls or o is ndarray

    __hash__ = type.__hash__

    def __instancecheck__(self, x):
        return isinstance(x, (ndarray, matrix)) or isinstance(x, _np.ndarray)

    def __subclasscheck__(self, c):
        return issubclass(c, (ndarray, matrix)) or (isinstance(c, type) and issubclass(c, _np.ndarray))


class NdType(metaclass=_NdMeta):
    pass


class LinAlgError(Exception):
    pass


linalg = Mod("numpy.linalg", inv=la_inv, det=la_det, slogdet=la_slogdet, eigvals=la_eigvals, eigvalsh=la_eigvals,
             eigh=la_eigh, eig=la_eigh, solve=la_solve, pinv=la_pinv, cholesky=la_cholesky, norm=la_norm,
             LinAlgError=_np.linalg.LinAlgError)

PI = None


def _pi():
    mkhead("pi", "num", pos=True, arg=None)
    return Sc(Expr.factor("pi"))


def np_minmax(name):
    def f(x, *a, **k):
        if is_sym(x):
            return as_arr(x)._extreme(name, a, k)
        return getattr(_np, name)(x, *a, **k)
    return f


def np_arg(name):
    def f(x, *a, **k):
        if is_sym(x):
            return as_arr(x)._arg(name, a, k)
        return getattr(_np, "arg" + name)(x, *a, **k)
    return f


class Ix:
    def __init__(self, *keys):
        self.keys = keys


numpy = Mod("numpy", ix_=Ix, argmax=np_arg("max"), argmin=np_arg("min"), array=np_array, asarray=np_asarray, dot=np_dot, matmul=A.matmul, zeros=np_zeros, ones=np_ones,
            full=np_full, eye=np_eye, identity=np_eye, sum=np_sum, mean=np_mean, average=np_mean, var=np_var, std=np_std,
            log=np_log, exp=np_exp, sqrt=np_sqrt, abs=np_abs, absolute=np_abs, fabs=np_abs, square=np_square, power=np_power,
            hstack=np_hstack, vstack=np_vstack, concatenate=np_concatenate, column_stack=np_column_stack, stack=np_stack,
            diag=np_diag, diagflat=np_diagflat, trace=np_trace, transpose=np_transpose, reshape=np_reshape, kron=np_kron,
            outer=np_outer, tile=np_tile, repeat=np_repeat, where=np_where, einsum=np_einsum, delete=np_delete,
            diagonal=lambda x: as_arr(x).diagonal(), multiply=lambda a, b: as_arr(a) * b,
            subtract=lambda a, b: as_arr(a) - b, add=lambda a, b: as_arr(a) + b, divide=lambda a, b: as_arr(a) / b,
            true_divide=lambda a, b: as_arr(a) / b, negative=lambda a: -a,
            inner=lambda a, b: A.matmul(as_arr(a), as_arr(b).T), vdot=lambda a, b: (as_arr(a) * b).sum(),
            copy=lambda x: x.copy(), zeros_like=lambda x, **k: A.full(None, 0, dims=x.dims),
            ones_like=lambda x, **k: A.full(None, 1, dims=x.dims), fill_diagonal=lambda a, v: A.fill_diagonal(a, v),
            ravel=lambda x: as_arr(x).ravel(), squeeze=lambda x: _squeeze(x), atleast_2d=lambda x: _at2(as_arr(x)),
            expand_dims=lambda x, axis: A.insert_axis(x, axis), isnan=np_isnan,
            ndarray=NdType, matrix=matrix, inf=float("inf"), nan=float("nan"), newaxis=None,
            float64=float, float_=float, int_=int, int64=int, bool_=_np.bool_, number=_np.number, integer=_np.integer,
            floating=_np.floating, linalg=linalg, min=np_minmax("min"), max=np_minmax("max"), amin=np_minmax("min"),
            amax=np_minmax("max"), errstate=_np.errstate, seterr=lambda **k: None, random=Stub("numpy.random"),
            any=lambda x, *a: x.any() if hasattr(x, "any") else builtins.any(x),
            all=lambda x, *a: x.all() if hasattr(x, "all") else builtins.all(x),
            isscalar=lambda x: isinstance(x, Sc) or is_num(x),
            prod=lambda x, *a, **k: _prod(x), cumsum=deleg("cumsum"),
            get_printoptions=_np.get_printoptions, set_printoptions=lambda **k: None,
            **{k: deleg(k) for k in ("unique", "arange", "argsort", "lexsort", "nonzero", "isin", "array_equal",
                                     "equal", "isinf", "linspace", "count_nonzero")},
            isfinite=np_isfinite, allclose=np_allclose, issubdtype=np_issubdtype, ptp=np_ptp)


def _prod(x):
    x = as_arr(x)
    out = Sc(ONE)
    for k in x.keys_all():
        out = out * Sc(x.get(k))
    return out


def _squeeze(x):
    x = as_arr(x)
    for ax in reversed(range(x.ndim)):
        if x.dims[ax] == ONE_DIM:
            x = A.drop_axis(x, ax, view=True)
    return Sc(x.get(())) if x.ndim == 0 else x


class _NumpyMod(Mod):
    def __getattr__(self, k):
        if k == "pi":
            return _pi()
        return super().__getattr__(k)


numpy.__class__ = _NumpyMod

norm = dist("norm")
stats = Mod("scipy.stats", norm=norm, chi2=dist("chi2"), t=dist("t"), f=dist("f"),
            chisqprob=lambda x, df: _fnn("chi2_sf", x, df))
sp_linalg = Mod("scipy.sparse.linalg", splu=SuperLU, inv=lambda m: la_inv(m), spsolve=la_solve)
sparse = Mod("scipy.sparse", identity=sp_identity, eye=sp_eye, kron=sp_kron, hstack=sp_hstack, vstack=sp_vstack,
             diags=sp_diags, issparse=sp_issparse, csr_matrix=CSR, csc_matrix=CSC, dia_matrix=DIA, csr_array=CSRA,
             lil_matrix=CSR, coo_matrix=CSR, linalg=sp_linalg, csr=Mod("csr", csr_matrix=CSR), csc=Mod("csc", csc_matrix=CSC),
             block_diag=lambda seq, format=None: _blockdiag(seq, A.FORMATS[format]), isspmatrix=sp_issparse)


def _blockdiag(seq, cls):
    seq = [as_arr(s) for s in seq]
    rows, cols, out = (), (), {}
    for s in seq:
        for (i, j), e in s.blocks.items():
            out[(i + len(rows), j + len(cols))] = e
        rows, cols = rows + s.dims[0], cols + s.dims[1]
    return cls((rows, cols), out)


optimize = Mod("scipy.optimize", minimize_scalar=minimize_scalar)
scipy = Mod("scipy", sparse=sparse, stats=stats, optimize=optimize, linalg=linalg)
spatial_lag = Mod("libpysal.weights.spatial_lag", lag_spatial=lag_spatial)
spatial_lag.lag_spatial = lag_spatial


class _WMeta(type):
    def __instancecheck__(self, x):
        return isinstance(x, SymW)


class WType(metaclass=_WMeta):
    pass


weights = Mod("libpysal.weights", spatial_lag=spatial_lag, lag_spatial=lag_spatial, W=WType, full=lambda w: w.full())


class _Never(type):
    def __instancecheck__(self, x):
        return False


class GraphType(metaclass=_Never):
    pass


graph = Mod("libpysal.graph", Graph=GraphType)
libpysal = Mod("libpysal", weights=weights, graph=graph)
import math as _math


def _mathfn(name, f):
    return lambda x: f(x) if is_sym(x) else getattr(_math, name)(x)


mathmod = Mod("math", **{k: getattr(_math, k) for k in dir(_math) if not k.startswith("_")})
for _k, _f in (("sqrt", np_sqrt), ("log", np_log), ("exp", np_exp), ("fabs", np_abs)):
    setattr(mathmod, _k, _mathfn(_k, _f))

mathmod.pi = numpy.pi

MODULES = {
    "math": mathmod,
    "numpy": numpy, "numpy.linalg": linalg, "scipy": scipy, "scipy.sparse": sparse, "scipy.sparse.linalg": sp_linalg,
    "scipy.stats": stats, "scipy.optimize": optimize, "scipy.linalg": linalg, "libpysal": libpysal,
    "libpysal.weights": weights, "libpysal.weights.spatial_lag": spatial_lag, "libpysal.graph": graph,
}


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(self, x):
        return builtins.isinstance(x, float) or (builtins.isinstance(x, Sc) and not builtins.isinstance(x, SymInt))


class sym_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, Sc):
            return Sc(x.e)
        if builtins.isinstance(x, Arr):
            if x.nelem_one():
                return Sc(x.single())
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(x)


class _IntMeta(type):
    def __instancecheck__(self, x):
        return builtins.isinstance(x, (int, SymInt))


class sym_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, SymInt):
            return x
        if builtins.isinstance(x, Sc):
            if x.e.is_const():
                return int(x.e.const_value())
            if all(HEADS[h].kind == "size" for h in x.e.heads()):
                return mkint(x.e)
            raise Unsupported("int() of a real scalar")
        return int(x, *a)


def sym_len(x):
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, SymIds):
        return x.n
    return len(x)


def sym_abs(x):
    return abs(x)


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(k, tuple):
            if sym_isinstance(x, k):
                return True
            continue
        if isinstance(k, Stub):
            continue
        if k is float:
            if isinstance(x, float) or (isinstance(x, Sc) and not isinstance(x, SymInt)):
                return True
            continue
        if k is int:
            if isinstance(x, (int, SymInt)):
                return True
            continue
        if k is complex:
            if isinstance(x, complex):
                return True
            continue
        if isinstance(x, k):
            return True
    return False


def sym_sum(it, start=0):
    out = start
    if isinstance(it, Arr):
        if it.ndim == 1:
            return it.sum()
        # python sum iterates over the first axis
        r = A.reduce_axis(it, 0)
        return r if start == 0 else r + start
    for x in it:
        out = out + x
    return out


def sym_max(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], A.Arr) and is_sym(a[0]) and a[0].ndim == 1:
        return np_minmax("max")(a[0])
    if any(is_sym(x) for x in a):
        raise Unsupported("max() of symbolic values")
    return max(*a, **k)


def sym_min(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], A.Arr) and is_sym(a[0]) and a[0].ndim == 1:
        return np_minmax("min")(a[0])
    if any(is_sym(x) for x in a):
        raise Unsupported("min() of symbolic values")
    return min(*a, **k)


def sym_range(*a):
    if any(isinstance(x, Sc) and not x.e.is_const() for x in a):
        raise Unsupported("loop over a symbolic range")
    return range(*[int(x) if not isinstance(x, Sc) else int(x.e.const_value()) for x in a])


def sym_round(x, *a):
    return x if isinstance(x, (Sc, Arr)) else round(x, *a)


BUILTINS = dict(float=sym_float, int=sym_int, len=sym_len, isinstance=sym_isinstance, sum=sym_sum, max=sym_max,
                min=sym_min, range=sym_range, abs=sym_abs, round=sym_round)


UNBOUND = object()        # a variable that has no value (see loader.visit_For)


class Undefined:
    """a local variable that has no value yet when a loop is entered."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, k):
        raise NameError("local variable %r referenced before assignment" % self.__dict__["name"])

    def _bad(self, *a):
        raise NameError("local variable %r referenced before assignment" % self.name)

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __lt__ = __gt__ = __bool__ = __iter__ = __getitem__ = __call__ = __matmul__ = __truediv__ = _bad


def fmt(text, args):
    """formatted text: symbolic values print as nan (text is not modelled)."""
    try:
        return text % args
    except Unsupported:
        def plain(v):
            try:
                float(v)
                return v
            except Unsupported:
                return float("nan")
            except Exception:
                return v
        return text % (tuple(plain(v) for v in args) if isinstance(args, tuple) else plain(args))
