"""C25: dense and sparse linear-algebra helpers agree with dense algebra."""
import numpy as np

from ..engine import contract
from . import common as K

S = "sputils:"
FM = ["ndarray", "csr_matrix", "csc_matrix"]


def mk(c, name, n, m, fmt):
    a = c.array(name, n, m) if c.symbolic else c.array(name, n, m)
    if not c.symbolic and fmt != "ndarray" and c.rng.rand() < 0.8:
        a = a * (c.rng.rand(*a.shape) < 0.5)
    if not c.symbolic and c.rng.rand() < 0.35:              # whole numbers stored as integers
        a = np.round(2 * a).astype(int)
    if not c.symbolic:
        c.inputs[name], c.copies[name] = a, a.copy()
    return a, (a if fmt == "ndarray" else getattr(c.sparse_mod, fmt)(a))


def out(c, label, r, want, array):
    t = type(r).__name__
    if array:
        c.structure(t == "ndarray", label + ": the result is an array")
    else:
        c.structure(t.endswith("_matrix") and t[:3] in ("csr", "csc", "coo"), label + ": the result is sparse")
    c.eq(label + ": equals dense algebra", c.dense(r), want)


def done(c, *ops):
    c.frame("operands unchanged", *ops) if c.symbolic else None
    c.frame_all("operands unchanged")


PAIRS = [dict(fa=a, fb=b, array_out=o) for a in FM for b in FM for o in (True, False)]


def dims(c, *names):
    return [c.dim(nm, 1, 7) for nm in names]


@contract("C25", [S + "spdot"], cases=[dict(p, shape=s) for p in PAIRS for s in ("mm", "mv", "mmT")], draws=4)
def spdot(c, fa, fb, array_out, shape):
    n, m, k = dims(c, "n", "m", "k")
    a, A = mk(c, "a", n, m, fa)
    if shape == "mmT":                      # products with a transpose: X'X
        b, B = mk(c, "b", n, k, fb)
        r = c.func(S + "spdot")(A.T, B, array_out)
        want = a.T @ b
    else:
        b, B = mk(c, "b", m, k if shape == "mm" else 1, fb)
        r = c.func(S + "spdot")(A, B, array_out)
        want = a @ b
    out(c, "spdot", r, want, array_out or "ndarray" in (fa, fb))
    done(c, A, B)


@contract("C25", [S + "spmultiply"], cases=PAIRS, draws=4)
def spmultiply(c, fa, fb, array_out):
    n, m = dims(c, "n", "m")
    a, A = mk(c, "a", n, m, fa)
    b, B = mk(c, "b", n, m, fb)
    f = c.func(S + "spmultiply")
    if (fa == "ndarray") != (fb == "ndarray"):
        c.raises("operands of different kinds are refused", lambda: f(A, B, array_out))
        return
    out(c, "spmultiply", f(A, B, array_out), a * b, array_out or fa == "ndarray")
    done(c, A, B)


@contract("C25", [S + "sphstack"], cases=PAIRS, draws=4)
def sphstack(c, fa, fb, array_out):
    n, m, k = dims(c, "n", "m", "k")
    a, A = mk(c, "a", n, m, fa)
    b, B = mk(c, "b", n, k, fb)
    f = c.func(S + "sphstack")
    if "csr_matrix" not in (fa, fb) and "csc_matrix" in (fa, fb):
        c.raises("unsupported formats are refused", lambda: f(A, B, array_out))
        return
    out(c, "sphstack", f(A, B, array_out), c.np.hstack((a, b)), array_out or fa == fb == "ndarray")
    done(c, A, B)


@contract("C25", [S + "spbroadcast"], cases=[dict(fa=a, array_out=o) for a in FM for o in (True, False)], draws=6)
def spbroadcast(c, fa, array_out):
    n, m = dims(c, "n", "m")
    a, A = mk(c, "a", n, m, fa)
    b = mk(c, "b", n, 1, "ndarray")[0]
    f = c.func(S + "spbroadcast")
    if fa == "csc_matrix":
        c.raises("unsupported formats are refused", lambda: f(A, b, array_out))
        return
    out(c, "spbroadcast", f(A, b, array_out), a * b, array_out or fa == "ndarray")
    done(c, A, b)


@contract("C25", [S + "spdot", S + "spmultiply", S + "sphstack", S + "spbroadcast"], cases=[dict(op=o) for o in ("spdot", "spmultiply", "sphstack", "spbroadcast")],
          sym=False, draws=3, bounded="lists, matrices and sparse arrays of random shape")
def refused(c, op):
    """anything but the documented operand types is refused, never silently computed wrongly."""
    import scipy.sparse as SP
    n = c.dim("n", 2, 6)
    a = c.array("a", n, n)
    f = c.func(S + op)
    for bad in (a.tolist(), "x", None, 3.0):
        c.raises("operand of type %s refused" % type(bad).__name__, lambda: f(bad, a))
        c.raises("operand of type %s refused" % type(bad).__name__, lambda: f(bad, bad))
    for o in (SP.csr_array(a), SP.coo_matrix(a)):
        for x, y in ((o, a), (a, o), (o, o), (o, SP.csr_matrix(a)), (SP.csr_matrix(a), o)):
            want = {"spdot": lambda: a @ a, "spmultiply": lambda: a * a, "sphstack": lambda: np.hstack((a, a)), "spbroadcast": lambda: a * a[:, :1]}[op]()
            try:
                r = f(x, a[:, :1]) if op == "spbroadcast" else f(x, y)
            except Exception:
                c.ok("refused")
                continue
            r = r.toarray() if SP.issparse(r) else np.asarray(r)
            c.eq("what is not refused is right", r, want)


@contract("C25", [S + "spinv"], cases=[dict(fa=a) for a in FM], draws=4)
def spinv(c, fa):
    n = c.dim("n", 2, 7)
    a = c.array("a", n, n)
    if not c.symbolic:
        a += 4 * np.eye(n)
        c.copies["a"] = a.copy()
    A = a if fa == "ndarray" else getattr(c.sparse_mod, fa)(a)
    r = c.func(S + "spinv")(A)
    c.structure((type(r).__name__ == "ndarray") == (fa == "ndarray"), "spinv keeps the kind of its operand")
    c.eq("spinv: a times the inverse is the identity", a @ c.dense(r), c.eye(n))
    c.eq("spinv: the inverse times a is the identity", c.dense(r) @ a, c.eye(n))
    done(c, A)


@contract("C25", [S + "splogdet"], cases=[dict(fa=a) for a in FM], draws=6)
def splogdet(c, fa):
    n = c.dim("n", 2, 7)
    a = c.array("a", n, n)
    A = a if fa == "ndarray" else getattr(c.sparse_mod, fa)(a)
    with K_quiet():
        r = c.func(S + "splogdet")(A)
    c.eq("splogdet is the log of the absolute determinant", r, c.logdet(a), tol=1e-7)
    done(c, A)


def K_quiet():
    from . import zoo
    return zoo.quiet()


@contract("C25", [S + "spfill_diagonal"], cases=[dict(fa=a, v=v) for a in FM for v in ("scalar", "vector")], draws=4)
def spfill_diagonal(c, fa, v):
    """fills in place, as documented by its callers: the diagonal is the value, every other element is kept."""
    n = c.dim("n", 2, 7)
    a = c.array("a", n, n)
    val = c.scalar("s", -3, 3) if v == "scalar" else c.array("v", n)
    if c.symbolic:
        want = a - c.np.diag(c.np.diag(a)) + (val * c.eye(n) if v == "scalar" else c.np.diag(val))
        A = c.sparse_mod.csr_matrix(a) if fa == "csr_matrix" else (c.sparse_mod.csc_matrix(a) if fa == "csc_matrix" else a.copy())
    else:
        want = a.copy()
        np.fill_diagonal(want, val)
        A = a.copy() if fa == "ndarray" else getattr(c.sparse_mod, fa)(a)
    with K_quiet():
        r = c.func(S + "spfill_diagonal")(A, val)
    c.eq("spfill_diagonal: returned matrix", c.dense(r), want)
    c.eq("spfill_diagonal: the same object is filled", c.dense(A), want)


@contract("C25", [S + "spmin", S + "spmax", S + "spisfinite"], cases=[dict(fa=a) for a in FM], sym=False, draws=20,
          bounded="random dense and sparse matrices up to 8x8, with and without zeros and non-finite values")
def extremes(c, fa):
    n, m = dims(c, "n", "m")
    a = c.rng.randn(n, m)
    mode = c.rng.randint(4)
    if mode == 1:
        a = np.abs(a) + 0.1
    elif mode == 2:
        a = -np.abs(a) - 0.1
    if c.rng.rand() < 0.5:
        a = a * (c.rng.rand(n, m) < 0.6)
    A = K.reg(c, "a", a) if fa == "ndarray" else getattr(c.sparse_mod, fa)(a)
    c.eq("spmin", c.func(S + "spmin")(A), a.min(), tol=0)
    c.eq("spmax", c.func(S + "spmax")(A), a.max(), tol=0)
    c.true("finite", bool(c.func(S + "spisfinite")(A)) is True)
    b = a.copy()
    b[c.rng.randint(n), c.rng.randint(m)] = [np.nan, np.inf, -np.inf][c.rng.randint(3)]
    B = b if fa == "ndarray" else getattr(c.sparse_mod, fa)(b)
    c.true("not finite", bool(c.func(S + "spisfinite")(B)) is False)
    c.true("operands unchanged", np.array_equal(a, A if fa == "ndarray" else A.toarray()))


@contract("C25", [S + "spmin", S + "spmax"], cases=[dict(fa=a) for a in FM], num=False)
def extremes_sym(c, fa):
    """for every shape: the helper is the matrix' own minimum and maximum (implicit zeros included)."""
    n, m = dims(c, "n", "m")
    a, A = mk(c, "a", n, m, fa)
    c.eq("spmin", c.func(S + "spmin")(A), a.min())
    c.eq("spmax", c.func(S + "spmax")(A), a.max())
    done(c, A)
