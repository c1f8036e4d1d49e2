"""Symbolic numpy / scipy.sparse values over the index-notation term algebra."""
from fractions import Fraction
import numbers
from . import terms as T
from .terms import Expr, Unsupported, ZERO, ONE, HEADS, mkhead, DELTA, EngineError

DECIDER = [None]          # engine callback: decide(SymBool) -> bool
MAXAX = 8


def fv(axis, pos=0):
    return -(1 + axis * MAXAX + pos)


def decide(cond):
    if DECIDER[0] is None:
        raise Unsupported("symbolic condition outside the engine: %r" % (cond,))
    return DECIDER[0](cond)


# ------------------------------------------------------------------ booleans
class SymBool:
    """op in {'<','<=','==','opaque'} applied to an Expr compared with 0."""
    __slots__ = ("op", "e", "neg", "parts")

    def __init__(self, op, e=None, neg=False, parts=None):
        self.op, self.e, self.neg, self.parts = op, e, neg, parts

    def __bool__(self):
        return decide(self)

    def __invert__(self):
        return SymBool(self.op, self.e, not self.neg, self.parts)

    def __and__(self, o):
        return SymBool("and", parts=(self, o))

    def __or__(self, o):
        return SymBool("or", parts=(self, o))
    __rand__, __ror__ = __and__, __or__

    def key(self):
        if self.op in ("and", "or"):
            return "(%s%s %s)" % ("!" if self.neg else "", self.op,
                                  " ".join(p.key() if isinstance(p, SymBool) else str(p) for p in self.parts))
        return "%s%s:%s" % ("!" if self.neg else "", self.op, self.e if isinstance(self.e, str) else self.e.key())

    def __repr__(self):
        return "SymBool(%s%s, %r)" % ("not " if self.neg else "", self.op, self.e)

    # numpy-bool-like conveniences
    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def mkcmp(op, e):
    """e op 0"""
    if e.is_const():
        c = e.const_value()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, ">": c > 0, ">=": c >= 0, "!=": c != 0}[op]
    if op == ">":
        return SymBool("<", -e)
    if op == ">=":
        return SymBool("<=", -e)
    if op == "!=":
        return SymBool("==", e, neg=True)
    return SymBool(op, e)


# ------------------------------------------------------------------ let-abstraction
LETMAX = [14]           # expressions with more monomials get a name (unfolded again when an equality needs it)


def mklet(e, frees):
    """name the expression e, whose free variables are within `frees`."""
    par = {v: -(900 + i) for i, v in enumerate(frees)}
    par2 = {-(900 + i): -(i + 1) for i in range(len(frees))}
    q = e.subst(par).subst(par2) if frees else e
    sym = False
    if len(frees) == 2:
        sw = q.subst({-1: -2, -2: -1})
        if sw == q:
            sym = True
        elif sw.key() < q.key():
            q, frees = sw, (frees[1], frees[0])
    key = "let{%s}" % q.key()
    if len(frees) != len(e.free()):
        key += "/%d" % len(frees)
    mkhead(key, "let", arg=q, sym=sym)
    return Expr.factor(key, tuple(frees))


def autolet(e, dims, k):
    if LETMAX[0] is None or len(e.d) <= LETMAX[0]:
        return e
    if any(f[0] == DELTA and all(i < 0 for i in f[1]) for m in e.d for f in m[0]):
        # keep the structural identity parts visible
        a, b = {}, {}
        for m, c in e.d.items():
            (a if any(f[0] == DELTA and all(i < 0 for i in f[1]) for f in m[0]) else b)[m] = c
        if len(b) > LETMAX[0]:
            b = Expr(b)
            return Expr(a) + mklet(b, tuple(sorted(b.free(), reverse=True)))
        return e
    return mklet(e, tuple(sorted(e.free(), reverse=True)))


# ------------------------------------------------------------------ scalars
def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        f = Fraction(x).limit_denominator(1000)         # a float within 4 ulp of p/q, q <= 1000, stands for p/q (1/3 of a concrete count)
        if abs(f - Fraction(x)) <= abs(Fraction(x)) * Fraction(4, 2 ** 53):
            return f
        return Fraction(repr(x))
    if hasattr(x, "item") and not isinstance(x, (Sc, Arr)):
        return frac(x.item())
    raise Unsupported("not a number: %r" % (x,))


def is_num(x):
    if isinstance(x, (bool, int, float, Fraction)):
        return True
    return type(x).__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "shape", None) == () and \
        x.dtype.kind in "biuf"


def expr_of(x):
    if isinstance(x, Sc):
        return x.e
    if is_num(x):
        return Expr.const(frac(x))
    if isinstance(x, Arr) and x.nelem_one():
        return x.single()
    raise Unsupported("scalar expected, got %s" % type(x).__name__)


def isinf(x):
    return isinstance(x, float) and x in (float("inf"), float("-inf"))


class Sc:
    """real scalar (numpy float64 look-alike)."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        if LETMAX[0] is not None and len(e.d) > LETMAX[0]:
            e = mklet(e, ())
        self.e = e

    # arithmetic
    def _bin(self, o, f):
        if isinstance(o, Arr):
            return NotImplemented
        try:
            oe = expr_of(o)
        except Unsupported:
            if isinstance(o, (Sc,)) or is_num(o):
                raise
            return NotImplemented
        return mksc(f(self.e, oe), self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._bin(o, lambda a, b: a * T.powr(b, -1))
        return Sc(r.e) if isinstance(r, Sc) else r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: b * T.powr(a, -1))
        return Sc(r.e) if isinstance(r, Sc) else r

    def __neg__(self): return mksc(-self.e, self, self)
    def __pos__(self): return self

    def __pow__(self, o):
        if is_num(o):
            return mksc(T.powr(self.e, frac(o)), self, o)
        if isinstance(o, Sc) and o.e.is_const():
            return mksc(T.powr(self.e, o.e.const_value()), self, o)
        return Sc(T.apply_fn("exp", expr_of(o) * T.apply_fn("log", self.e)))

    def __rpow__(self, o):
        return Sc(T.apply_fn("exp", self.e * T.apply_fn("log", expr_of(o))))

    def __abs__(self): return Sc(fn_abs(self.e))
    # a symbolic scalar is a finite real
    def __lt__(self, o): return o > 0 if isinf(o) else mkcmp("<", self.e - expr_of(o))
    def __le__(self, o): return o > 0 if isinf(o) else mkcmp("<=", self.e - expr_of(o))
    def __gt__(self, o): return o < 0 if isinf(o) else mkcmp(">", self.e - expr_of(o))
    def __ge__(self, o): return o < 0 if isinf(o) else mkcmp(">=", self.e - expr_of(o))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, Arr):
            return NotImplemented
        return mkcmp("==", self.e - expr_of(o))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, Arr):
            return NotImplemented
        return mkcmp("!=", self.e - expr_of(o))
    __hash__ = None

    def __bool__(self):
        if self.e.is_const():
            return self.e.const_value() != 0
        return bool(mkcmp("!=", self.e))

    def __float__(self):
        if self.e.is_const():
            return float(self.e.const_value())
        raise Unsupported("float() of a symbolic scalar")

    def item(self): return self
    def sum(self, *a, **k): return self
    def any(self): return mkcmp("!=", self.e)
    def flatten(self): return scalar_arr(self.e, 1)
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def dtype(self): return FLOAT

    def copy(self): return self
    def __deepcopy__(self, memo): return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __repr__(self): return "Sc(%r)" % (self.e,)
    def __format__(self, spec): return "<sym>"
    def __round__(self, n=None): return self

    def transpose(self): return self

    def astype(self, *a): return self


class SymInt(Sc):
    """integer-valued polynomial in the symbolic dimensions."""

    def __index__(self):
        if self.e.is_const():
            return int(self.e.const_value())
        raise Unsupported("concrete value of a symbolic size needed")

    def __int__(self):
        return self.__index__()

    def __floordiv__(self, o):
        oe = expr_of(o)
        q = self.e * T.powr(oe, -1)
        if all(x > 0 for m in q.d for (_, _, x) in m[0]) and all(c.denominator == 1 for c in q.d.values()):
            return mkint(q)
        if not any(b for (_, b) in q.d):
            return Sc(T.apply_fn("floor", q))
        raise Unsupported("floor division of sizes")

    def __rfloordiv__(self, o):
        return mkint(expr_of(o)).__floordiv__(self) if not is_num(o) else SymInt(expr_of(o)).__floordiv__(self)

    def __mod__(self, o):
        q = self.__floordiv__(o)
        return mkint(self.e - expr_of(q) * expr_of(o)) if isinstance(q, (int, SymInt)) else Sc(T.apply_fn("mod", self.e - expr_of(o)))

    def __hash__(self):
        return 7919          # equality of two sizes is decided by the prover, never by their hashes

    def __repr__(self): return "SymInt(%r)" % (self.e,)

    @property
    def real(self): return self


def mksc(e, a, b):
    if all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in (a, b)):
        if all(c.denominator == 1 for c in e.d.values()):
            return mkint(e)
    return Sc(e)


def mkint(e):
    if e.is_const() and e.const_value().denominator == 1:
        return int(e.const_value())
    return SymInt(e)


class DType:
    def __init__(self, n): self.name = n; self.kind = "f"
    def __eq__(self, o): return True
    def __repr__(self): return self.name


FLOAT = DType("float64")
NONFINITE = set()        # names of arrays a contract declares to hold a NaN or an infinity


def has_nonfinite(a):
    """does the array hold (a rearrangement of) data declared non-finite."""
    return any(h in NONFINITE for e in a.blocks.values() for h in e.heads())



def fn_abs(e):
    if e.is_const():
        return Expr.const(abs(e.const_value()))
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if not m[1] and all(HEADS[h].pos for h, _, _ in m[0]):
            return e.scale(-1) if c < 0 else e
        if c < 0:
            e = -e
        return T.apply_fn("abs", e)
    ms = sorted(e.d, key=repr)
    if e.d[ms[0]] < 0:
        e = -e
    return T.apply_fn("abs", e)


# ------------------------------------------------------------------ dims
def size_head(name):
    mkhead(name, "size", pos=True)
    return name


ONE_DIM = ((),)


def dim_of(x):
    """user size -> dim (tuple of segments)."""
    if isinstance(x, tuple):
        return x
    if isinstance(x, str):
        size_head(x)
        return ((x,),)
    if isinstance(x, bool):
        raise Unsupported("bool size")
    if is_num(x):
        f = frac(x)
        if f.denominator != 1:
            raise Unsupported("non-integer size")
        return tuple(() for _ in range(int(f)))
    if isinstance(x, Sc):
        if x.e.is_const():
            return dim_of(int(x.e.const_value()))
        hint = DIM_HINT.get(x.e.key())
        if hint is not None:
            return hint
        segs = []
        for (fs, b), c in sorted(x.e.d.items(), key=lambda t: (t[0][0] == (), repr(t[0]))):
            if b or c.denominator != 1 or c < 0:
                raise Unsupported("size %r" % (x.e,))
            seg = []
            for h, ix, e in fs:
                if HEADS[h].kind != "size" or not isinstance(e, int) or e < 0:
                    raise Unsupported("size %r" % (x.e,))
                seg += [h] * e
            segs += [tuple(seg)] * int(c)
        return tuple(segs)
    if isinstance(x, float):
        return dim_of(Sc(Expr.const(frac(x))))
    raise Unsupported("size of type %s" % type(x).__name__)


DIM_HINT = {}           # Expr key -> dim, registered when an array with that total size is declared


def dim_expr(dim):
    e = ZERO
    for seg in dim:
        t = ONE
        for s in seg:
            t = t * Expr.factor(s)
        e = e + t
    return e


def dim_size(dim):
    if all(seg == () for seg in dim):
        return len(dim)
    return mkint(dim_expr(dim))


def seg_expr(seg):
    return dim_expr((seg,))


# ------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ("ver", "writes")

    def __init__(self):
        self.ver = 0
        self.writes = []


class Arr:
    __array_priority__ = 2000
    __array_ufunc__ = None
    _issp = False
    matmulstar = False

    def __init__(self, dims, blocks=None, buf=None):
        self.dims = tuple(dims)
        self._blocks = {k: (v if len(v.d) <= 1 else autolet(v, self.dims, k)) for k, v in (blocks or {}).items() if v.d}
        self.buf = buf or Buf()
        self.bver = self.buf.ver

    # ---- block access
    @property
    def blocks(self):
        if self.bver != self.buf.ver:
            raise Unsupported("read through a stale alias")
        return self._blocks

    def get(self, key):
        return self.blocks.get(key, ZERO)

    def _write(self, blocks, why="write"):
        if self.bver != self.buf.ver:
            raise Unsupported("write through a stale alias")
        self._blocks = {k: autolet(v, self.dims, k) for k, v in blocks.items() if v.d}
        self.buf.ver += 1
        self.buf.writes.append(why)
        self.bver = self.buf.ver

    def new(self, dims, blocks, cls=None, buf=None):
        return (cls or type(self))(dims, blocks, buf)

    # ---- shape
    @property
    def shape(self):
        return tuple(dim_size(d) for d in self.dims)

    @shape.setter
    def shape(self, shp):
        r = reshape(self, shp)
        self.dims = r.dims
        self._blocks = r._blocks
        self.buf.writes.append("shape assignment")

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        out = 1
        for s in self.shape:
            out = out * s
        return out

    @property
    def dtype(self):
        return FLOAT

    def nelem_one(self):
        return all(d == ONE_DIM for d in self.dims)

    def single(self):
        return self.get((0,) * self.ndim)

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("len() of a symbolic dimension")

    def keys_all(self):
        import itertools
        return itertools.product(*[range(len(d)) for d in self.dims])

    # ---- transposition
    def transpose(self, *axes):
        if axes and axes != ((1, 0),) and axes != (1, 0):
            raise Unsupported("general transpose")
        if self.ndim < 2:
            return self
        if self.ndim != 2:
            raise Unsupported("transpose ndim %d" % self.ndim)
        out = {}
        for k, e in self.blocks.items():
            out[k[::-1]] = swap_axes(e, 0, 1)
        return self.new(self.dims[::-1], out, cls=self._tcls(), buf=self.buf)

    def _tcls(self):
        return type(self)

    @property
    def T(self):
        return self.transpose()

    # ---- elementwise
    def map(self, f, zero=None, cls=None):
        """apply Expr->Expr to every block; zero = image of 0 (Expr)."""
        out = {}
        for k in self.keys_all():
            e = self.get(k)
            if e.d:
                out[k] = f(e)
            elif zero is None:
                out[k] = f(e)
            else:
                out[k] = zero
        return (cls or type(self))(self.dims, out)

    def _lin(self, o, f, rev=False):
        return elementwise(self, o, f, rev)

    def __add__(self, o): return elementwise(self, o, lambda a, b: a + b, "+")
    def __radd__(self, o): return elementwise(self, o, lambda a, b: a + b, "+")
    def __sub__(self, o): return elementwise(self, o, lambda a, b: a - b, "+")
    def __rsub__(self, o): return elementwise(self, o, lambda a, b: b - a, "+")

    def __mul__(self, o):
        if isinstance(o, (Sc,)) or is_num(o):
            return elementwise(self, o, lambda a, b: a * b, "*")
        if self.matmulstar or (isinstance(o, Arr) and o.matmulstar):
            return matmul(self, o)
        return elementwise(self, o, lambda a, b: a * b, "*")

    def __rmul__(self, o):
        if isinstance(o, (Sc,)) or is_num(o):
            return elementwise(self, o, lambda a, b: a * b, "*")
        if self.matmulstar:
            return matmul(o, self)
        return elementwise(self, o, lambda a, b: b * a, "*")

    def __truediv__(self, o):
        return elementwise(self, o, lambda a, b: (a * T.powr(b, -1)) if a.d else ZERO, "/")

    def __rtruediv__(self, o):
        return elementwise(self, o, lambda a, b: (b * T.powr(a, -1)) if b.d else ZERO, "/")

    def __neg__(self): return self.map(lambda e: -e, ZERO)
    def __pos__(self): return self
    def __abs__(self): return self.map(fn_abs, ZERO)

    def __pow__(self, p):
        if self.matmulstar:
            raise Unsupported("matrix power of a sparse/np.matrix value")
        if isinstance(p, Arr) and p.nelem_one():
            p = Sc(p.single())
        if isinstance(p, Sc):
            if not p.e.is_const():
                from . import shims as S
                if S._sign(p.e) != "+":
                    raise Unsupported("symbolic exponent of unknown sign")

                def spow(e):
                    if S._sign(e) != "+":
                        raise Unsupported("symbolic power of a base of unknown sign")
                    return S.e_exp(p.e * S.e_log(e))
                return self.map(spow, ZERO)
            p = p.e.const_value()
        p = frac(p)
        return self.map(lambda e: T.powr(e, p), ZERO if p > 0 else None)

    def __rpow__(self, b):
        raise Unsupported("scalar ** array")

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    # in place
    def _ip(self, r, why):
        if self._issp:
            return r
        if not isinstance(r, Arr) or r.dims != self.dims:
            raise Unsupported("in-place operation changes shape")
        self._write(r._blocks, why)
        return self

    def __iadd__(self, o): return self._ip(self + o, "+=")
    def __isub__(self, o): return self._ip(self - o, "-=")
    def __imul__(self, o): return self._ip(self * o, "*=")
    def __itruediv__(self, o): return self._ip(self / o, "/=")

    # comparisons
    def _cmp(self, o, op):
        r = elementwise(self, o, lambda a, b: a - b, "+")
        return BoolArr(r, op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return BoolArr(self, "False")
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return BoolArr(self, "True")
        return self._cmp(o, "!=")
    __hash__ = object.__hash__

    def __bool__(self):
        if self.nelem_one():
            return bool(Sc(self.single()))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.nelem_one():
            return float(Sc(self.single()))
        raise TypeError("only size-1 arrays can be converted")

    # ---- reductions
    def sum(self, axis=None, keepdims=False, **kw):
        if axis is None:
            r = self
            for _ in range(self.ndim):
                r = reduce_axis(r, 0)
            return Sc(r.get(()))
        if axis < 0:
            axis += self.ndim
        if self.matmulstar:
            r = reduce_axis(self, axis)
            dims = list(self.dims)
            dims[axis] = ONE_DIM
            return insert_axis(r, axis, cls=matrix)
        r = reduce_axis(self, axis)
        if keepdims:
            r = insert_axis(r, axis)
        if r.ndim == 0:
            return Sc(r.get(()))
        return r

    def mean(self, axis=None, **kw):
        if axis is None:
            return self.sum() / self.size
        return self.sum(axis, **kw) / self.shape[axis]

    def any(self, *a, **k):
        if all(not e.d for e in self._blocks.values()) or not self.blocks:
            return False
        return SymBool("opaque", "any:" + arr_key(self))

    def _extreme(self, name, a, k):
        if a or k:
            raise Unsupported("%s with axis" % name)
        es = [self.get(key) for key in __import__("itertools").product(*[range(len(d)) for d in self.dims])]
        if es and all(e.is_const() for e in es):
            f = max if name == "max" else min
            return Sc(Expr.const(f(e.const_value() for e in es)))
        if self.ndim == 1 and 1 < len(es) <= 8 and all(seg == () for seg in self.dims[0]):
            return Sc(es[self._best(es, name)])          # a short vector: one path per order of the entries
        key = "%s{%s}" % (name, arr_key(self))
        mkhead(key, "fn0", extra=self)
        return Sc(Expr.factor(key))

    @staticmethod
    def _best(es, name):
        best = 0
        for i in range(1, len(es)):
            if (Sc(es[i]) > Sc(es[best])) if name == "max" else (Sc(es[i]) < Sc(es[best])):
                best = i
        return best

    def _arg(self, name, a, k):
        if a or k or self.ndim != 1 or len(self.dims[0]) > 8 or any(seg != () for seg in self.dims[0]):
            raise Unsupported("arg%s" % name)
        return self._best([self.get((i,)) for i in range(len(self.dims[0]))], name)

    def argmax(self, *a, **k): return self._arg("max", a, k)
    def argmin(self, *a, **k): return self._arg("min", a, k)

    def max(self, *a, **k): return self._extreme("max", a, k)
    def min(self, *a, **k): return self._extreme("min", a, k)

    def diagonal(self, *a):
        if a and a[0] != 0:
            raise Unsupported("off-diagonal")
        return diagonal(self)

    def trace(self):
        return diagonal(self).sum()

    def dot(self, o):
        return matmul(self, o)

    def item(self, *a):
        if a:
            raise Unsupported("item(i)")
        if self.nelem_one():
            return Sc(self.single())
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def copy(self):
        return self.new(self.dims, dict(self.blocks))

    def __deepcopy__(self, memo):
        return self.copy()
    __copy__ = copy

    def astype(self, *a, **k): return self.copy()
    def flatten(self, order="C"): return reshape(self, (-1,), order).copy()
    def ravel(self): return reshape(self, (-1,))

    def squeeze(self, axis=None):
        if axis is not None:
            raise Unsupported("squeeze(axis)")
        if self.nelem_one():
            return Sc(self.single())
        r, i = self, 0
        while i < r.ndim:
            if len(r.dims[i]) == 1 and r.dims[i][0] == ():
                r = r[tuple(0 if j == i else slice(None) for j in range(r.ndim))]
            else:
                i += 1
        return r

    def reshape(self, *shp, **kw):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        return reshape(self, shp, kw.get("order", "C"))

    def fill(self, v):
        self._write((self * 0 + v)._blocks, "fill")

    def resize(self, *shp, **kw):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        r = reshape(self, shp)
        self.dims, self._blocks = r.dims, r._blocks

    def round(self, *a): return self

    @property
    def real(self): return self

    @property
    def flat(self): return self.flatten()

    def tolist(self):
        if self.ndim == 1:
            return [self[i] for i in range(len(self))]
        return [self[i].tolist() for i in range(len(self))]

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        return "%s(%s)%s" % (type(self).__name__, "x".join(map(str, self.shape)), self._blocks)

    def __format__(self, spec): return "<symarr>"


class ndarray(Arr):
    pass


class matrix(Arr):
    matmulstar = True

    def __getitem__(self, key):
        r = getitem(self, key)
        return r

    @property
    def A(self): return ndarray(self.dims, dict(self.blocks))


class _Sparse(Arr):
    _issp = True
    matmulstar = True

    def _tcls(self):
        return csc_matrix if type(self) is csr_matrix else (csr_matrix if type(self) is csc_matrix else type(self))

    def toarray(self): return ndarray(self.dims, dict(self.blocks))
    def todense(self): return matrix(self.dims, dict(self.blocks))
    def tocsr(self, copy=False): return csr_matrix(self.dims, dict(self.blocks))
    def tocsc(self, copy=False): return csc_matrix(self.dims, dict(self.blocks))
    def tocoo(self): return csr_matrix(self.dims, dict(self.blocks))
    def tolil(self): return csr_matrix(self.dims, dict(self.blocks))
    def asformat(self, f): return FORMATS[f](self.dims, dict(self.blocks))

    def multiply(self, o):
        if isinstance(o, Sc) or is_num(o):
            return self * o
        r = elementwise(self, o, lambda a, b: a * b, "*")
        return csr_matrix(r.dims, r._blocks)

    def power(self, p):
        return csr_matrix(self.dims, self.map(lambda e: T.powr(e, frac(p)), ZERO)._blocks)

    def conj(self): return self
    def eliminate_zeros(self): return None
    def sort_indices(self): return None

    def setdiag(self, v, k=0):
        if k != 0:
            raise Unsupported("setdiag off diagonal")
        fill_diagonal(self, v)

    @property
    def nnz(self):
        return SymInt(Expr.factor(mkhead("nnz{%s}" % arr_key(self), "fn0").key))

    @property
    def data(self):
        raise Unsupported("raw .data of a sparse matrix")

    @data.setter
    def data(self, v):
        # exact for structural identities (eye.data = const*ones) only
        if not is_diag(self):
            raise Unsupported(".data assignment on a general sparse matrix")
        d = diagonal(self)
        if not all((b - ONE).is_zero() for b in d._blocks.values()):
            raise Unsupported(".data assignment on a non-identity diagonal")
        if v.ndim != 1:
            raise Unsupported("data")
        fill_diagonal(self, v)


class csr_matrix(_Sparse):
    pass


class csc_matrix(_Sparse):
    pass


class dia_matrix(_Sparse):
    pass


class _SparseArr(_Sparse):
    matmulstar = False

    def _tcls(self):
        return type(self)


class csr_array(_SparseArr):
    pass


FORMATS = {"csr": csr_matrix, "csc": csc_matrix, "dia": dia_matrix, "coo": csr_matrix, "lil": csr_matrix, None: csr_matrix}


class BoolArr:
    """elementwise comparison result; only truthiness-style reductions are supported."""

    def __init__(self, arr, op):
        self.arr, self.op = arr, op
        self.shape = arr.shape
        self.ndim = arr.ndim

    def _sc(self):
        if self.op in ("True", "False"):
            return self.op == "True"
        if self.arr.nelem_one():
            return mkcmp(self.op, self.arr.single())
        return None

    def __bool__(self):
        s = self._sc()
        if s is None:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(s)

    def any(self, axis=None):
        s = self._sc()
        if s is not None:
            return s
        consts = [mkcmp(self.op, self.arr.get(k)) for k in self.arr.keys_all()]
        if any(c is True for c in consts):
            return True
        if all(c is False for c in consts):
            return False
        return SymBool("opaque", "any%s:%s" % (self.op, arr_key(self.arr)))

    def all(self, axis=None):
        s = self._sc()
        if s is not None:
            return s
        consts = [mkcmp(self.op, self.arr.get(k)) for k in self.arr.keys_all()]
        if any(c is False for c in consts):
            return False
        if all(c is True for c in consts):
            return True
        return SymBool("opaque", "all%s:%s" % (self.op, arr_key(self.arr)))

    def item(self):
        return self._sc()

    def ind(self):
        """0/1 indicator array (opaque indicator function of the compared difference)."""
        if self.op in ("True", "False"):
            raise Unsupported("indicator of a constant comparison")
        one = Expr.const(1)

        def pos(e):
            if e.is_const():
                return one if e.const_value() > 0 else ZERO
            ms = sorted(e.d, key=repr)
            return T.apply_fn("ind>", e.scale(1 / abs(e.d[ms[0]])))

        def eq(e):
            if e.is_const():
                return one if e.const_value() == 0 else ZERO
            ms = sorted(e.d, key=repr)
            return T.apply_fn("ind=", e.scale(1 / e.d[ms[0]]))
        f = {">": pos, "<": lambda e: pos(-e), ">=": lambda e: one - pos(-e), "<=": lambda e: one - pos(e), "==": eq, "!=": lambda e: one - eq(e)}[self.op]
        return self.arr.map(f, f(ZERO), ndarray)

    def __mul__(self, o): return self.ind() * o
    def __rmul__(self, o): return o * self.ind()
    def __add__(self, o): return self.ind() + (o.ind() if isinstance(o, BoolArr) else o)
    def __radd__(self, o): return o + self.ind()
    def __sub__(self, o): return self.ind() - (o.ind() if isinstance(o, BoolArr) else o)
    def __rsub__(self, o): return o - self.ind()

    def astype(self, *a, **k):
        return self.ind()

    def decide(self):
        """the truth values of a short concrete vector, by cases (None otherwise)."""
        if self.ndim != 1 or self.op in ("True", "False") or len(self.arr.dims[0]) > 4 or any(s != () for s in self.arr.dims[0]):
            return None
        if getattr(self, "_dec", None) is None:
            self._dec = [bool(mkcmp(self.op, self.arr.get((i,)))) for i in range(len(self.arr.dims[0]))]
        return list(self._dec)

    def sum(self, *a, **k):
        d = self.decide() if not a and not k else None
        if d is not None and len(d) > 1:
            return len([v for v in d if v])
        return self.ind().sum(*a, **k)

    def mean(self, *a, **k):
        return self.ind().mean(*a, **k)

    def __getitem__(self, k):
        r = self.arr[k]
        if isinstance(r, Sc):
            return mkcmp(self.op, r.e) if self.op not in ("True", "False") else self.op == "True"
        return BoolArr(r, self.op)


# ------------------------------------------------------------------ helpers
def swap_axes(e, a, b):
    mp = {}
    for p in range(MAXAX):
        mp[fv(a, p)] = fv(b, p)
        mp[fv(b, p)] = fv(a, p)
    return e.subst({k: v for k, v in mp.items() if k in e.free()}) if e.d else e


def move_axes(e, amap):
    """rename axis a -> amap[a] simultaneously."""
    mp = {}
    for v in e.free():
        a, p = divmod(-v - 1, MAXAX)
        if a in amap and amap[a] != a:
            mp[v] = fv(amap[a], p)
    return e.subst(mp) if mp else e


def arr_key(a):
    return T.sha(repr((a.dims, sorted((k, e.key()) for k, e in a.blocks.items()))))


def as_arr(x):
    if isinstance(x, BoolArr):
        return x.ind()
    if isinstance(x, Arr):
        return x
    if isinstance(x, Sc):
        return scalar_arr(x.e, 0)
    if is_num(x):
        return scalar_arr(Expr.const(frac(x)), 0)
    if isinstance(x, (list, tuple)):
        return array(x)
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"):
        return array(x.tolist())
    raise Unsupported("cannot make an array of %s" % type(x).__name__)


def scalar_arr(e, nd):
    return ndarray((ONE_DIM,) * nd, {(0,) * nd: e})


def pad_axes(a, nd):
    if a.ndim == nd:
        return a
    off = nd - a.ndim
    out = {}
    amap = {i: i + off for i in range(a.ndim)}
    for k, e in a.blocks.items():
        out[(0,) * off + k] = move_axes(e, amap)
    return Arr((ONE_DIM,) * off + a.dims, out)


def result_cls(a, b, kind):
    if not isinstance(b, Arr):
        return type(a)
    if not isinstance(a, Arr):
        return type(b)
    if a._issp and b._issp:
        if isinstance(a, dia_matrix) and isinstance(b, dia_matrix):
            return dia_matrix
        if isinstance(a, _SparseArr) or isinstance(b, _SparseArr):
            return csr_array
        return csr_matrix if not isinstance(a, csc_matrix) else csc_matrix
    if a._issp or b._issp:
        sp_, dn = (a, b) if a._issp else (b, a)
        if kind == "+":
            return matrix if sp_.matmulstar else ndarray
        if kind == "/":
            return matrix if sp_.matmulstar else ndarray
        return csr_matrix if sp_.matmulstar else csr_array
    if isinstance(a, matrix) or isinstance(b, matrix):
        return matrix
    return ndarray


def bcast_dim(da, db):
    if da == db:
        return da
    if da == ONE_DIM:
        return db
    if db == ONE_DIM:
        return da
    raise Unsupported("operands could not be broadcast: %s vs %s" % (dim_expr(da), dim_expr(db)))


def elementwise(a, b, f, kind):
    if isinstance(b, (Sc,)) or is_num(b):
        be = expr_of(b)
        if a._issp and kind == "+" and be.d:
            raise Unsupported("sparse + scalar")
        if kind in ("*", "/"):
            out = {k: f(e, be) for k, e in a.blocks.items()} if True else None
            if kind == "/" and True:
                # zero blocks may be numerators (0/x = 0) or denominators
                for k in a.keys_all():
                    if k not in a.blocks:
                        r = f(ZERO, be)
                        if r.d:
                            out[k] = r
            return type(a)(a.dims, out)
        out = {k: f(a.get(k), be) for k in a.keys_all()}
        return type(a)(a.dims, out)
    if isinstance(b, BoolArr):
        raise Unsupported("boolean array arithmetic")
    if not isinstance(b, Arr):
        b = as_arr(b)
    cls = result_cls(a, b, kind)
    nd = max(a.ndim, b.ndim)
    if nd == 0:
        return Sc(f(a.get(()), b.get(())))
    A, B = pad_axes(a, nd), pad_axes(b, nd)
    A, B = align_segments(A, B)
    dims = tuple(bcast_dim(x, y) for x, y in zip(A.dims, B.dims))
    import itertools
    out = {}
    for k in itertools.product(*[range(len(d)) for d in dims]):
        ka = tuple(0 if A.dims[i] == ONE_DIM else k[i] for i in range(nd))
        kb = tuple(0 if B.dims[i] == ONE_DIM else k[i] for i in range(nd))
        ea, eb = A.get(ka), B.get(kb)
        if not ea.d and not eb.d and kind != "/":
            continue
        r = f(ea, eb)
        if r.d:
            out[k] = r
    if cls is Arr:
        cls = ndarray
    return cls(dims, out)


def align_segments(A, B):
    """refine segmentations so equal-size dims use equal segments (arrays constant along that axis only)."""
    for i in range(A.ndim):
        da, db = A.dims[i], B.dims[i]
        if da == db or da == ONE_DIM or db == ONE_DIM or not same_total(da, db):
            continue
        r = refine(A, i, db)
        if r is not None:
            A = r
            continue
        r = refine(B, i, da)
        if r is not None:
            B = r
    return A, B


def same_total(d1, d2):
    return not (dim_expr(d1) - dim_expr(d2)).d


def refine(a, axis, dim):
    """the same array with another segmentation of one axis, if no entry depends on the position along regrouped segments."""
    segs = a.dims[axis]
    groups = []                           # (segments of a, segments of dim) with equal totals
    i = j = 0
    while i < len(segs) or j < len(dim):
        i0, j0 = i, j
        best = None
        for p in range(i0 + 1, len(segs) + 1):
            for q in range(j0 + 1, len(dim) + 1):
                if same_total(segs[i0:p], dim[j0:q]) and (best is None or p + q < sum(best)):
                    best = (p, q)
        if best is None:
            return None
        i, j = best
        groups.append((i0, i, j0, j))
    rows = {}
    for k, e in a.blocks.items():
        rows.setdefault(k[:axis] + k[axis + 1:], {})[k[axis]] = e
    out = {}
    for k, v in rows.items():
        for i0, i1, j0, j1 in groups:
            es = [v.get(x) for x in range(i0, i1)]
            if all(e is None for e in es):
                continue
            if i1 - i0 == 1 and j1 - j0 == 1 and segs[i0] == dim[j0]:
                out[k[:axis] + (j0,) + k[axis:]] = es[0]
                continue
            if any(e is None for e in es) or len({e.key() for e in es}) != 1:
                return None
            if any(fv(axis, p) in e.free() for x, e in enumerate(es) for p in range(len(segs[i0 + x]))):
                return None
            for y in range(j0, j1):
                out[k[:axis] + (y,) + k[axis:]] = es[0]
    return type(a)(a.dims[:axis] + (dim,) + a.dims[axis + 1:], out)


def reduce_axis(a, axis):
    dims = a.dims[:axis] + a.dims[axis + 1:]
    out = {}
    amap = {i: i - 1 for i in range(axis + 1, a.ndim)}
    for k, e in a.blocks.items():
        seg = a.dims[axis][k[axis]]
        for p, s in enumerate(seg):
            e = e.sum_over(fv(axis, p), s)
        e = move_axes(e, amap)
        kk = k[:axis] + k[axis + 1:]
        out[kk] = out.get(kk, ZERO) + e
    return ndarray(dims, out)


def insert_axis(a, axis, cls=None):
    amap = {i: i + 1 for i in range(axis, a.ndim)}
    out = {}
    for k, e in a.blocks.items():
        out[k[:axis] + (0,) + k[axis:]] = move_axes(e, amap)
    return (cls or type(a))(a.dims[:axis] + (ONE_DIM,) + a.dims[axis:], out, a.buf)


def matmul(a, b):
    a0, b0 = a, b
    if not isinstance(a, Arr):
        a = as_arr(a)
    if not isinstance(b, Arr):
        b = as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * Sc(b.get(())) if b.ndim == 0 else b * Sc(a.get(()))
    a1 = b1 = False
    cls = ndarray
    if a._issp and b._issp:
        cls = result_cls(a, b, "@")
    elif isinstance(a, matrix) or isinstance(b, matrix):
        cls = matrix
    if a.ndim == 1:
        a = insert_axis(a, 0, ndarray)
        a1 = True
    if b.ndim == 1:
        b = insert_axis(b, 1, ndarray)
        b1 = True
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul of ndim>2")
    if a.dims[1] != b.dims[0] and same_total(a.dims[1], b.dims[0]):
        r = refine(a, 1, b.dims[0])
        if r is not None:
            a = r
        else:
            r = refine(b, 0, a.dims[1])
            b = b if r is None else r
    if a.dims[1] != b.dims[0]:
        raise Unsupported("matmul shape mismatch: %s vs %s" % (dim_expr(a.dims[1]), dim_expr(b.dims[0])))
    inner = a.dims[1]
    out = {}
    bb = {}
    for (k, j), e in b.blocks.items():
        bb.setdefault(k, []).append((j, e))
    for (i, k), ea in a.blocks.items():
        if k not in bb:
            continue
        seg = inner[k]
        tmpmap = {fv(1, p): fv(5, p) for p in range(len(seg))}
        ea2 = ea.subst({x: y for x, y in tmpmap.items()}) if seg else ea
        for j, eb in bb[k]:
            mp = {}
            for p in range(len(seg)):
                mp[fv(0, p)] = fv(5, p)
            eb2 = eb.subst(mp) if mp else eb
            r = mul_contract(ea2, eb2, [(fv(5, p), s) for p, s in enumerate(seg)])
            if r.d:
                out[(i, j)] = out.get((i, j), ZERO) + r
    r = cls((a.dims[0], b.dims[1]), out)
    if a1 and b1:
        return Sc(r.get((0, 0)))
    if a1:
        return drop_axis(r, 0)
    if b1:
        return drop_axis(r, 1)
    return r


def mul_contract(ea, eb, frees):
    """(ea*eb) summed over the free vars, done monomial-wise so rewriting sees the sum at once."""
    if not frees:
        return ea * eb
    if len(ea.d) * len(eb.d) > T.LIMIT_MONOS:
        raise T.TooBig("contraction of %d x %d monomials" % (len(ea.d), len(eb.d)))
    out = {}
    for (f1, b1), c1 in ea.d.items():
        n1 = len(b1)
        for (f2, b2), c2 in eb.d.items():
            n2 = n1 + len(b2)
            mp = {v: n2 + i for i, (v, s) in enumerate(frees)}
            fs = [(h, tuple(mp.get(i, i) for i in ix), e) for h, ix, e in f1]
            fs += [(h, tuple(i + n1 if i >= 0 else mp.get(i, i) for i in ix), e) for h, ix, e in f2]
            bs = {i: s for i, s in enumerate(b1 + b2)}
            for i, (v, s) in enumerate(frees):
                bs[n2 + i] = s
            r = T.canon(fs, bs)
            cc = c1 * c2
            for m, c in r.d.items():
                v = out.get(m, 0) + c * cc
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
    return Expr(out)


def drop_axis(a, axis, view=False):
    """remove a size-one axis."""
    if a.dims[axis] != ONE_DIM:
        raise Unsupported("drop of a non-unit axis")
    amap = {i: i - 1 for i in range(axis + 1, a.ndim)}
    out = {}
    for k, e in a.blocks.items():
        out[k[:axis] + k[axis + 1:]] = move_axes(e, amap)
    return ndarray(a.dims[:axis] + a.dims[axis + 1:], out, a.buf if view else None)


def diagonal(a):
    if a.ndim != 2 or a.dims[0] != a.dims[1]:
        raise Unsupported("diagonal of a non-square array")
    out = {}
    for i, seg in enumerate(a.dims[0]):
        e = a.get((i, i))
        out[(i,)] = e.subst({fv(1, p): fv(0, p) for p in range(len(seg))}) if seg else e
    return ndarray((a.dims[0],), out)


def diag_matrix(v, cls=None):
    """1-d array -> square matrix"""
    d = v.dims[0]
    out = {}
    for (i,), e in v.blocks.items():
        seg = d[i]
        for p in range(len(seg)):
            e = e * Expr.factor(DELTA, (fv(0, p), fv(1, p)))
        out[(i, i)] = e
    return (cls or ndarray)((d, d), out)


def is_diag(a):
    if a.ndim != 2 or a.dims[0] != a.dims[1]:
        return False
    for (i, j), e in a.blocks.items():
        if i != j:
            return False
        for (fs, b) in e.d:
            for p in range(len(a.dims[0][i])):
                if not any(h == DELTA and set(ix) == {fv(0, p), fv(1, p)} for h, ix, _ in fs):
                    return False
    return True


def fill_diagonal(a, v):
    d0 = diagonal(a)
    if isinstance(v, Sc) or is_num(v):
        vv = full((a.shape[0],), v, dims=(a.dims[0],))
    else:
        vv = as_arr(v)
        if vv.ndim == 2 and vv.dims[1] == ONE_DIM:
            vv = drop_axis(vv, 1)
        elif vv.ndim == 1 and vv.dims[0] == ONE_DIM and a.dims[0] != ONE_DIM:
            vv = full((a.shape[0],), Sc(vv.single()), dims=(a.dims[0],))
    r = Arr(a.dims, dict(a.blocks)) - diag_matrix(ndarray(d0.dims, d0._blocks)) + diag_matrix(vv)
    a._write(r._blocks, "fill_diagonal")


def full(shape, v, dims=None):
    if dims is None:
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        dims = tuple(dim_of(s) for s in shape)
    e = expr_of(v)
    import itertools
    return ndarray(dims, {k: e for k in itertools.product(*[range(len(d)) for d in dims])} if e.d else {})


def eye_arr(n, cls=None):
    d = dim_of(n)
    out = {}
    for i, seg in enumerate(d):
        e = ONE
        for p in range(len(seg)):
            e = e * Expr.factor(DELTA, (fv(0, p), fv(1, p)))
        out[(i, i)] = e
    return (cls or ndarray)((d, d), out)


def stack_axis(arrs, axis, cls=None):
    arrs = list(arrs)
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    for n_, a in enumerate(arrs):
        if a.ndim != nd:
            raise Unsupported("concatenate: ndim mismatch")
        for i in range(nd):
            if n_ and i != axis and a.dims[i] != arrs[0].dims[i] and same_total(a.dims[i], arrs[0].dims[i]):
                r = refine(a, i, arrs[0].dims[i])
                if r is None:
                    fst = [refine(b, i, a.dims[i]) for b in arrs[:n_]]
                    if all(b is not None for b in fst):
                        arrs[:n_] = fst
                else:
                    a = arrs[n_] = r
    for a in arrs[1:]:
        for i in range(nd):
            if i != axis and a.dims[i] != arrs[0].dims[i]:
                raise Unsupported("concatenate: shape mismatch %s / %s" % (dim_expr(a.dims[i]), dim_expr(arrs[0].dims[i])))
    dim = ()
    out = {}
    for a in arrs:
        off = len(dim)
        for k, e in a.blocks.items():
            out[k[:axis] + (k[axis] + off,) + k[axis + 1:]] = e
        dim = dim + a.dims[axis]
    dims = arrs[0].dims[:axis] + (dim,) + arrs[0].dims[axis + 1:]
    return (cls or ndarray)(dims, out)


def array(x, **kw):
    """np.array on nested sequences of symbolic scalars / arrays."""
    if isinstance(x, Arr):
        return ndarray(x.dims, dict(x.blocks))
    if isinstance(x, Sc) or is_num(x):
        return scalar_arr(expr_of(x), 0)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return ndarray(((),), {})
        items = [array(i) for i in x]
        nd = items[0].ndim
        if any(i.ndim != nd or i.dims != items[0].dims for i in items):
            raise Unsupported("ragged array literal")
        return stack_axis([insert_axis(i, 0, ndarray) for i in items], 0)
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"):
        return array(x.tolist())
    raise Unsupported("np.array of %s" % type(x).__name__)


# ------------------------------------------------------------------ reshape
def reshape(a, shp, order="C"):
    if not isinstance(shp, (tuple, list)):
        shp = (shp,)
    shp = list(shp)
    total = dim_expr(ONE_DIM)
    for d in a.dims:
        total = total * dim_expr(d)
    if any(is_num(s) and s == -1 for s in shp):
        known = ONE
        pos = None
        for i, s in enumerate(shp):
            if is_num(s) and s == -1:
                pos = i
            else:
                known = known * expr_of(s)
        q = total * T.powr(known, -1)
        shp[pos] = mkint(q)
    tgt = ONE
    for s in shp:
        tgt = tgt * expr_of(s)
    if not (tgt - total).is_zero():
        raise ValueError("cannot reshape array of size %r into shape %r" % (total, shp))
    view = a.buf if order == "C" else None
    # identical / unit-axis insertions and deletions
    tdims = match_dims(a, shp, order)
    if tdims is not None:
        return tdims
    if order == "C":
        r = period_axis(a, shp)
        if r is not None:
            return r
    raise Unsupported("reshape %s -> %s" % (a.shape, tuple(shp)))


def period_axis(a, shp):
    """(t n) x rest <-> t x n x rest for a concrete count t of equal segments n."""
    keep = [i for i, d in enumerate(a.dims) if d != ONE_DIM]
    if not keep:
        return None
    amap = {i: j for j, i in enumerate(keep)}
    dims = [a.dims[i] for i in keep]
    blocks = {tuple(k[i] for i in keep): move_axes(e, amap) for k, e in a.blocks.items()}
    tn = [j for j, v in enumerate(shp) if not (is_num(v) and v == 1)]
    d0 = dims[0]
    if len(tn) == len(dims) + 1 and len(d0) > 1 and d0[0] != () and all(d == d0[0] for d in d0) and is_num(shp[tn[0]]) and shp[tn[0]] == len(d0):
        up = {i: i + 1 for i in range(len(dims))}
        nd = [((),) * len(d0), (d0[0],)] + dims[1:]
        out = {(k[0], 0) + k[1:]: move_axes(e, up) for k, e in blocks.items()}
    elif len(tn) == len(dims) - 1 and len(d0) > 1 and all(d == () for d in d0) and len(dims[1]) == 1 and dims[1][0] != ():
        down = {i: i - 1 for i in range(1, len(dims))}
        nd = [dims[1] * len(d0)] + dims[2:]
        out = {(k[0],) + k[2:]: move_axes(e, down) for k, e in blocks.items()}
    else:
        return None
    return match_dims(ndarray(nd, out), shp, "C")


def match_dims(a, shp, order):
    nonunit = [i for i, d in enumerate(a.dims) if d != ONE_DIM]
    tn = [i for i, s in enumerate(shp) if not (is_num(s) and s == 1)]
    cls = ndarray if not isinstance(a, matrix) else matrix
    # same sequence of non-unit dims
    if len(nonunit) == len(tn) and all((expr_of(shp[j]) - dim_expr(a.dims[i])).is_zero() for i, j in zip(nonunit, tn)):
        if order == "F" and len(nonunit) > 1:
            pass
        amap = {i: j for i, j in zip(nonunit, tn)}
        dims = [ONE_DIM] * len(shp)
        for i, j in amap.items():
            dims[j] = a.dims[i]
        out = {}
        for k, e in a.blocks.items():
            kk = [0] * len(shp)
            for i, j in amap.items():
                kk[j] = k[i]
            out[tuple(kk)] = move_axes(e, amap)
        return cls(dims, out, a.buf)
    # merge / split of single-segment product indices
    segs = [a.dims[i] for i in nonunit]
    if order == "F":
        if len(nonunit) == 2 and len(tn) == 1:
            b = a.transpose()
            return reshape(ndarray(b.dims, b._blocks), shp, "C")
        if len(nonunit) == 1 and len(tn) == 2:
            sh2 = [s for s in shp if not (is_num(s) and s == 1)]
            if len(sh2) == len(shp):
                r = reshape(ndarray(a.dims, a._blocks), (shp[1], shp[0]), "C")
                return r.transpose()
        raise Unsupported("Fortran-order reshape")
    if all(len(d) == 1 for d in segs):
        flat = [(s, i, p) for i in nonunit for p, s in enumerate(a.dims[i][0])]
        res, c = [], 0
        ok = True
        for s in shp:
            e = expr_of(s)
            if (e - ONE).is_zero():
                res.append(())
                continue
            acc, take = ONE, []
            while c < len(flat) and not (acc - e).is_zero():
                acc = acc * Expr.factor(flat[c][0])
                take.append(flat[c])
                c += 1
            if not (acc - e).is_zero():
                ok = False
                break
            res.append(tuple(take))
        if ok and c == len(flat):
            mp = {}
            dims = []
            for ax, take in enumerate(res):
                dims.append((tuple(t[0] for t in take),))
                for p, t in enumerate(take):
                    mp[fv(t[1], t[2])] = fv(ax, p)
            out = {}
            k0 = (0,) * a.ndim
            e = a.get(k0)
            out[(0,) * len(shp)] = e.subst({x: y for x, y in mp.items() if x in e.free()})
            return cls(dims, out, a.buf)
    # concrete blocks: row-major flattening of unit segments
    if all(all(s == () for s in d) for d in a.dims) and all(is_num(s) for s in shp):
        import itertools
        flat = [a.get(k) for k in a.keys_all()]
        dims = [dim_of(int(s)) for s in shp]
        out = {}
        for k, e in zip(itertools.product(*[range(len(d)) for d in dims]), flat):
            out[k] = e
        return cls(dims, out, a.buf)
    # leading concrete axis merged with the following axis (tile/stack patterns): C order
    if len(nonunit) == 2 and len(tn) == 1 and all(s == () for s in a.dims[nonunit[0]]):
        i, j = nonunit
        d1 = a.dims[j]
        if len(d1) == 1:
            m = len(a.dims[i])
            dims = [ONE_DIM] * len(shp)
            dims[tn[0]] = d1 * m
            out = {}
            for k, e in a.blocks.items():
                kk = [0] * len(shp)
                kk[tn[0]] = k[i]
                out[tuple(kk)] = move_axes(e, {j: tn[0]})
            return cls(dims, out, None)
    # inverse: (m segments of equal kind) -> (m, seg)
    if len(nonunit) == 1 and len(tn) == 2 and len(set(a.dims[nonunit[0]])) == 1:
        i = nonunit[0]
        m = len(a.dims[i])
        seg = a.dims[i][0]
        if is_num(shp[tn[0]]) and shp[tn[0]] == m and (expr_of(shp[tn[1]]) - seg_expr(seg)).is_zero():
            dims = [ONE_DIM] * len(shp)
            dims[tn[0]] = ((),) * m
            dims[tn[1]] = (seg,)
            out = {}
            for k, e in a.blocks.items():
                kk = [0] * len(shp)
                kk[tn[0]] = k[i]
                out[tuple(kk)] = move_axes(e, {i: tn[1]})
            return cls(dims, out, None)
    return None


# ------------------------------------------------------------------ indexing
def bounds(dim):
    acc = [ZERO]
    for seg in dim:
        acc.append(acc[-1] + seg_expr(seg))
    return acc


def find_boundary(dim, v):
    """position p such that sum(dim[:p]) == v (v >= 0 form) or from the end for negatives."""
    if v is None:
        return None
    e = expr_of(v)
    bs = bounds(dim)
    if e.is_const() and e.const_value() < 0:
        e = bs[-1] + e
    for p, b in enumerate(bs):
        if (b - e).is_zero():
            return p
    if e.d and not e.is_const() and all(cf < 0 for cf in e.d.values()):   # -(a sum of dimensions): counted from the end
        for p, b in enumerate(bs):
            if (b - bs[-1] - e).is_zero():
                return p
    if e.is_const():
        c = e.const_value()
        if bs[-1].is_const() and c > bs[-1].const_value():
            return len(dim)
        if c < 0 and bs[-1].is_const():
            return 0
    raise Unsupported("index/slice bound %r does not fall on a block boundary of %r" % (e, bs))


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_ell = [i for i, k in enumerate(key) if k is Ellipsis]
    used = sum(1 for k in key if k is not None and k is not Ellipsis)
    if n_ell:
        i = n_ell[0]
        key[i:i + 1] = [slice(None)] * (a.ndim - used)
    else:
        key += [slice(None)] * (a.ndim - used)
    return key


def is_intlike(k):
    return (isinstance(k, int) and not isinstance(k, bool)) or isinstance(k, SymInt) or \
        (is_num(k) and not isinstance(k, (bool, float, Fraction)) and getattr(getattr(k, "dtype", None), "kind", "i") in "iu")


def axis_select(dim, k):
    """-> (list of selected segment positions, drop_axis?)"""
    if isinstance(k, Sc) and k.e.is_const() and not isinstance(k, SymInt):
        k = int(k.e.const_value())
    if is_intlike(k):
        p = find_boundary(dim, k)
        if p is None or p >= len(dim):
            raise IndexError("index out of bounds")
        if dim[p] != ():
            raise Unsupported("integer index into a symbolic segment")
        return [p], True
    if isinstance(k, slice):
        if k.step is not None and k.step != 1:
            if all(s == () for s in dim):
                return list(range(len(dim)))[slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])], False
            raise Unsupported("strided slice")
        lo = 0 if k.start is None else find_boundary(dim, k.start)
        hi = len(dim) if k.stop is None else find_boundary(dim, k.stop)
        return list(range(lo, hi)), False
    if isinstance(k, range) or type(k).__module__.split(".")[0] == "pandas":
        k = list(k)
    if isinstance(k, BoolArr) and k.decide() is not None:
        k = k.decide()
    if isinstance(k, (list, tuple)) or (type(k).__module__ == "numpy" and hasattr(k, "tolist")) or isinstance(k, Arr):
        if isinstance(k, Arr):
            if k.ndim != 1:
                raise Unsupported("array index of ndim %d" % k.ndim)
            k = [k.get((i,)) for i in range(len(k))]
            if not all(e.is_const() for e in k):
                raise Unsupported("symbolic fancy index")
            k = [int(e.const_value()) for e in k]
        if hasattr(k, "tolist"):
            k = k.tolist()
        k = list(k)
        if k and all(isinstance(i, bool) for i in k):
            if len(k) != len(dim) or any(s != () for s in dim):
                raise Unsupported("boolean mask on a symbolic dimension")
            return [i for i, b in enumerate(k) if b], False
        if all(is_intlike(i) for i in k):
            pos = []
            for i in k:
                p, _ = axis_select(dim, i)
                pos += p
            return pos, False
    raise Unsupported("index of type %s" % type(k).__name__)


def getitem(a, key):
    if type(key).__name__ == "Ix":
        for i, k in reversed(list(enumerate(key.keys))):
            a = a[(slice(None),) * i + (k,)]
        return a
    key = norm_key(a, key)
    sel, drops, newpos = [], [], []
    ax = 0
    layout = []                       # output axes: ('old', ax) or ('new',)
    fancy = 0
    for k in key:
        if k is None:
            layout.append(None)
            continue
        s, d = axis_select(a.dims[ax], k)
        if not isinstance(k, slice) and not d:
            fancy += 1
        sel.append(s)
        drops.append(d)
        if not d:
            layout.append(ax)
        ax += 1
    if fancy > 1:
        # paired fancy indices a[[..],[..]]
        if a.ndim == 2 and len(sel[0]) == len(sel[1]):
            out = {}
            for n_, (i, j) in enumerate(zip(*sel)):
                out[(n_,)] = a.get((i, j))
            return ndarray((tuple(() for _ in sel[0]),), out)
        raise Unsupported("multiple fancy indices")
    if all(len(s) == len(d) and s == list(range(len(d))) for s, d in zip(sel, a.dims)) and not any(drops) and None not in layout:
        return type(a)(a.dims, dict(a.blocks), a.buf)
    inv = [dict() for _ in sel]
    for i, s in enumerate(sel):
        for n_, p in enumerate(s):
            inv[i].setdefault(p, []).append(n_)
    amap, dims = {}, []
    for o, l in enumerate(layout):
        if l is None:
            dims.append(ONE_DIM)
        else:
            amap[l] = o
            dims.append(tuple(a.dims[l][p] for p in sel[l]))
    out = {}
    import itertools
    for k, e in a.blocks.items():
        if any(k[i] not in inv[i] for i in range(a.ndim)):
            continue
        e2 = None
        for combo in itertools.product(*[inv[i][k[i]] for i in range(a.ndim)]):
            kk = tuple(0 if l is None else combo[l] for l in layout)
            if e2 is None:
                e2 = move_axes(e, amap)
            out[kk] = e2
    view = a.buf if fancy == 0 and not a._issp else None
    if not layout:
        return Sc(out.get((), ZERO))
    cls = ndarray if not a._issp else (type(a) if len(layout) == 2 else ndarray)
    if isinstance(a, matrix):
        cls = matrix
    if a._issp and any(drops):
        # scipy keeps two dimensions for csr_matrix
        dims2, out2 = [], {}
        amap2 = {i: i for i in range(2)}
        for i in range(2):
            dims2.append(tuple(a.dims[i][p] for p in sel[i]))
        for k, e in a.blocks.items():
            if all(k[i] in inv[i] for i in range(2)):
                out2[(inv[0][k[0]][0], inv[1][k[1]][0])] = e
        if all(drops):
            return Sc(out2.get((0, 0), ZERO))
        return type(a)(dims2, out2)
    return cls(tuple(dims), out, view)


def setitem(a, key, val):
    if isinstance(key, BoolArr):
        raise Unsupported("boolean-mask assignment")
    key = norm_key(a, key)
    sel, drops = [], []
    for ax, k in enumerate(key):
        if k is None:
            raise Unsupported("newaxis assignment")
        try:
            s, d = axis_select(a.dims[ax], k)
        except Unsupported:
            # a matrix of zeros may be cut along any order of its segments
            if any(e.d for e in a.blocks.values()) or len(a.dims[ax]) > 4:
                raise
            import itertools
            for perm in itertools.permutations(a.dims[ax]):
                try:
                    s, d = axis_select(perm, k)
                except Unsupported:
                    continue
                a.dims = a.dims[:ax] + (perm,) + a.dims[ax + 1:]
                break
            else:
                raise
        sel.append(s)
        drops.append(d)
    tdims = [tuple(a.dims[i][p] for p in sel[i]) for i in range(a.ndim)]
    keep = [i for i in range(a.ndim) if not drops[i]]
    if isinstance(val, Arr):
        v = val
    elif isinstance(val, (list, tuple)):
        v = array(val)
    else:
        v = scalar_arr(expr_of(val), 0)
    # numpy drops leading unit axes of the value when it has more axes
    while v.ndim > len(keep) and v.dims[0] == ONE_DIM:
        v = drop_axis(v, 0)
    if v.ndim > len(keep):
        if v.nelem_one():
            v = scalar_arr(v.single(), 0)
        else:
            raise Unsupported("assignment shape mismatch")
    v = pad_axes(v, len(keep)) if keep else v
    blocks = dict(a.blocks)
    import itertools
    for combo in itertools.product(*[range(len(s)) for s in sel]):
        tgt = tuple(sel[i][combo[i]] for i in range(a.ndim))
        if keep:
            vk = []
            for n_, i in enumerate(keep):
                if v.dims[n_] == ONE_DIM:
                    vk.append(0)
                elif v.dims[n_] == tdims[i]:
                    vk.append(combo[i])
                else:
                    raise Unsupported("assignment shape mismatch %s <- %s" % (tdims[i], v.dims[n_]))
            e = v.get(tuple(vk))
            e = move_axes(e, {n_: i for n_, i in enumerate(keep)})
        else:
            e = v.get(()) if v.ndim == 0 else v.single()
        blocks[tgt] = e
    a._write(blocks, "item assignment")
