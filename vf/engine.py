"""Contracts, proof mode and concrete mode.

A contract is a Python function  body(c, **case)  that calls functions of /repo/spreg through c.mod(name) on
inputs made by the context and states obligations with c.eq / c.true / c.same / c.frame.  It is executed

 * in proof mode: inputs are symbolic arrays with symbolic dimensions, the code under contract is the mechanically
   extracted current source, every branch on symbolic data is explored, and each obligation is decided by the
   normal-form prover (vf.terms) or z3;
 * in concrete mode: inputs are random concrete arrays and the functions are the real ones, run by CPython.
"""
import hashlib
import json
import os
import re
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import arr as A
from . import loader, shims
from . import terms as T
from .terms import EngineError, Expr, HEADS, TooBig, Unsupported, mkhead

REPO = loader.REPO
CONTRACTS = []
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Contract:
    def __init__(self, prop, name, body, funcs, cases, sym, num, draws, note, bounded, timeout, symcases, maxpaths=64):
        self.prop, self.name, self.body, self.funcs = prop, name, body, funcs
        self.cases, self.sym, self.num, self.draws, self.note = cases, sym, num, draws, note
        self.bounded, self.timeout, self.symcases, self.maxpaths = bounded, timeout, symcases, maxpaths


def contract(prop, funcs, cases=None, sym=True, num=True, draws=4, note="", bounded=None, timeout=60, symcases=None,
             name=None, maxpaths=64):
    """funcs: list of 'module:qualname' under contract; cases: list of dicts of concrete options."""
    def deco(f):
        CONTRACTS.append(Contract(prop, name or f.__name__, f, list(funcs), cases or [{}], sym, num, draws, note, bounded,
                                  timeout, symcases, maxpaths))
        return f
    return deco


class Reject(BaseException):
    """the drawn concrete instance is outside the precondition."""


class Gone(EngineError):
    """an internal function under contract is gone, or is called in another way than the contract calls it: nothing is decided here."""


SIGNATURE = re.compile(r"([\w.]+)\(\) (missing \d+ required|takes .*positional|got an unexpected keyword|got multiple values)")


def public_names():
    """what docs/api.rst lists."""
    if not PUBLIC:
        PUBLIC.add("")
        try:
            with open(os.path.join(REPO, "docs", "api.rst")) as f:
                PUBLIC.update(x.split(".")[-1] for x in re.findall(r"^\s+([\w.]+)\s*$", f.read(), re.M))
        except OSError:
            pass
    return PUBLIC


PUBLIC = set()


def blank(cls):
    """an object of a class of spreg that was not constructed: only the attributes a contract sets."""
    return object.__new__(type(cls.__name__, (cls,), {"__module__": "vf.blank"}))


def outside(e):
    """the contract called an internal function in a way it no longer accepts, or the code reads an attribute that the object made up by the
    contract does not have: this decides nothing."""
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None:
        return type(e.obj).__module__.split(".")[0] == "vf"
    m = SIGNATURE.match(str(e)) if isinstance(e, TypeError) else None
    if not m:
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if "/spreg/" in tb.tb_frame.f_code.co_filename:
        return False
    return m.group(1).split(".")[0] not in public_names()


class Prune(BaseException):
    """this symbolic path is outside the precondition."""


class PathDone(EngineError):
    """an arbitrary loop iteration has been verified: nothing follows on this path."""


class LoopContract:
    """invariant of one `while` loop: enter(locals) states it on entry and returns an arbitrary state satisfying it,
    back(locals, state) states it after one arbitrary iteration."""

    def __init__(self, ctx, key, enter, back):
        self.ctx, self.key, self.f, self.g, self.n, self.state = ctx, key, enter, back, 0, None
        self.entered = 0

    def enter(self, loc):
        if self.entered:
            raise Unsupported("loop %s entered twice" % self.key)
        self.entered += 1
        try:
            self.state = self.f(loc)
        except KeyError as e:
            raise Unsupported("loop contract of %s does not fit the code: no variable %s" % (self.key, e))
        return self.state

    def head(self, loc):
        self.n += 1
        if self.n == 2:
            try:
                self.g(loc, self.state)
            except KeyError as e:
                raise Unsupported("loop contract of %s does not fit the code: no variable %s" % (self.key, e))
            raise PathDone()


class ForEach:
    """a symbolic collection a `for` loop runs over. enter(locals) states the invariant on entry and returns an arbitrary state satisfying it;
    then either the collection is exhausted or one arbitrary element is visited, after which back(locals, state) states the invariant again."""

    def __init__(self, name, elem, enter, back):
        self.name, self.elem, self.f, self.g, self.state, self.n = name, elem, enter, back, None, 0

    def for_enter(self, loc, names):
        if self.state is not None:
            raise Unsupported("loop over %s entered twice" % self.name)
        try:
            self.state = self.f(loc)
        except KeyError as e:
            raise Unsupported("loop contract over %s does not fit the code: no variable %s" % (self.name, e))
        return tuple(self.state[n] if n in self.state else shims.UNBOUND for n in names)

    def __iter__(self):
        if self.state is None:
            raise Unsupported("loop contract over %s does not fit the code: not a loop of statements" % self.name)
        return self

    def __next__(self):
        self.n += 1
        if self.n == 1:
            if A.SymBool("opaque", "another:" + self.name):
                return self.elem
            raise StopIteration
        try:
            self.g(dict(sys._getframe(1).f_locals), self.state)
        except KeyError as e:
            raise Unsupported("loop contract over %s does not fit the code: no variable %s" % (self.name, e))
        raise PathDone()


class Timeout(BaseException):
    pass


class Failed(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


# ------------------------------------------------------------------ z3 for path conditions and inequalities
_Z3 = [None]


def z3():
    if _Z3[0] is None:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        import z3 as m
        _Z3[0] = m
    return _Z3[0]


class Z:
    """translation of Exprs to z3 reals; sizes are integers >= 1, anything else an uninterpreted real."""

    def __init__(self):
        self.vars, self.cons = {}, []
        self.time = 0.0

    def var(self, h, ix):
        k = (h, ix)
        Z3 = z3()
        if k not in self.vars:
            H = HEADS[h]
            nm = h if not ix else "%s%s" % (h, list(ix))
            if H.kind == "size":
                v = Z3.Int(nm)
                self.cons.append(v >= 1)
                v = Z3.ToReal(v)
            else:
                v = Z3.Real(nm)
                if H.pos:
                    self.cons.append(v > 0)
            self.vars[k] = v
            if H.kind == "fn" and H.extra == "abs":
                self.cons.append(v >= 0)
                if not ix:
                    a = self.expr(H.arg)
                    self.cons.append(Z3.Or(v == a, v == -a))
        return self.vars[k]

    def expr(self, e):
        Z3 = z3()
        out = Z3.RealVal(0)
        for (fs, b), c in e.d.items():
            t = Z3.RealVal(str(c))
            if b:
                k = ("mono", repr((fs, b)))
                if k not in self.vars:
                    v = Z3.Real("m%d" % len(self.vars))
                    if all(isinstance(x, int) and x % 2 == 0 or HEADS[h].pos for h, ix, x in fs):
                        self.cons.append(v >= 0)
                    self.vars[k] = v
                t = t * self.vars[k]
            else:
                for h, ix, x in fs:
                    v = self.var(h, ix)
                    if isinstance(x, int):
                        for _ in range(abs(x)):
                            t = t * v if x > 0 else t / v
                        if x < 0:
                            self.cons.append(v != 0)
                    else:
                        k = ("pow", h, ix, str(x))
                        if k not in self.vars:
                            w = Z3.Real("p%d" % len(self.vars))
                            self.cons.append(w >= 0)
                            self.vars[k] = w
                        t = t * self.vars[k]
            out = out + t
        return out

    def cond(self, c):
        Z3 = z3()
        if isinstance(c, bool):
            return Z3.BoolVal(c)
        if c.op in ("and", "or"):
            f = Z3.And if c.op == "and" else Z3.Or
            r = f(*[self.cond(p) for p in c.parts])
        elif isinstance(c.e, str):
            r = Z3.Bool(c.e)
        else:
            e = self.expr(c.e)
            r = {"<": e < 0, "<=": e <= 0, "==": e == 0}[c.op]
        return Z3.Not(r) if c.neg else r

    def feasible(self, facts, cond):
        """sat / unsat / unknown; when products of sizes are in the way, once more with the linear facts only."""
        r, _ = self.check(facts + [cond])
        if r == "unknown" and sizes_only(cond):
            Z3 = z3()
            s, vs = Z3.Solver(), {}
            s.set("timeout", 3000)
            for f in [f for f in facts if sizes_only(f)] + [cond]:
                s.add(self.integer(f, vs))
            for v in vs.values():
                s.add(v >= 1)
            t0 = time.time()
            r = "unsat" if s.check() == Z3.unsat else r
            self.time += time.time() - t0
        return r

    def integer(self, c, vs):
        """a condition on sizes, in integer arithmetic."""
        Z3 = z3()
        if isinstance(c, bool):
            return Z3.BoolVal(c)
        if c.op in ("and", "or"):
            r = (Z3.And if c.op == "and" else Z3.Or)(*[self.integer(p, vs) for p in c.parts])
        else:
            e = Z3.IntVal(0)
            for (fs, b), k in c.e.d.items():
                e = e + int(k) * (vs.setdefault(fs[0][0], Z3.Int(fs[0][0])) if fs else 1)
            r = {"<": e < 0, "<=": e <= 0, "==": e == 0}[c.op]
        return Z3.Not(r) if c.neg else r

    def check(self, conds, want_model=False, ms=3000):
        Z3 = z3()
        t0 = time.time()
        s = Z3.Solver()
        s.set("timeout", ms)
        cs = [self.cond(c) for c in conds]
        for c in cs:
            s.add(c)
        for c in self.cons:
            s.add(c)
        r = s.check()
        self.time += time.time() - t0
        if want_model and r == Z3.sat:
            return "sat", s.model()
        return str(r), None


def sizes_only(c):
    """a linear condition on sizes with integer coefficients."""
    if isinstance(c, bool):
        return True
    if c.op in ("and", "or"):
        return all(sizes_only(p) for p in c.parts)
    return not isinstance(c.e, str) and all(not b and int(k) == k and (not fs or len(fs) == 1 and fs[0][2] == 1 and not fs[0][1] and HEADS[fs[0][0]].kind == "size")
                                            for (fs, b), k in c.e.d.items())


# ------------------------------------------------------------------ common context
class Ctx:
    symbolic = False

    def case_assume(self, cond):
        pass

    def let(self, x):
        return x

    def fill(self, x):
        return x


def as_blocks(x):
    """symbolic value -> (dims, {key: Expr})"""
    if isinstance(x, A.Arr):
        return x.dims, {k: x.get(k) for k in x.keys_all()}
    if isinstance(x, A.Sc):
        return (), {(): x.e}
    if isinstance(x, (list, tuple)):
        return as_blocks(A.array(list(x)))
    if A.is_num(x):
        return (), {(): Expr.const(A.frac(x))}
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"):
        return as_blocks(A.array(x.tolist()))
    raise Unsupported("cannot compare a value of type %s" % type(x).__name__)


def squeeze_dims(dims, blocks):
    keep = [i for i, d in enumerate(dims) if d != A.ONE_DIM]
    if len(keep) == len(dims):
        return dims, blocks
    amap = {a: i for i, a in enumerate(keep)}
    return tuple(dims[i] for i in keep), {tuple(k[i] for i in keep): A.move_axes(e, amap) for k, e in blocks.items()}


class FakeFrame:
    def __init__(self, a, columns=None, index=None):
        self.cols = {}
        if isinstance(a, dict):
            self.cols.update(a)
        for j, nm in enumerate(columns or ()):
            self.cols[nm] = a[:, j].reshape(-1, 1)
        self.index = index

    def __getitem__(self, k):
        return self.cols[k]


class FakePandas:
    DataFrame, Series = FakeFrame, type("Series", (), {})

    class core:
        class frame:
            DataFrame = FakeFrame

    @staticmethod
    def concat(fs, axis=0):
        if axis != 1:
            raise Unsupported("concat of symbolic frames along rows")
        r = FakeFrame.__new__(FakeFrame)
        r.cols, r.index = {}, fs[0].index
        for f in fs:
            r.cols.update(f.cols)
        return r


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, rec, prefix, case):
        self.rec = rec
        self.np = shims.numpy
        self.sparse_mod = shims.sparse
        self.stats = shims.stats
        self.case = case
        self.prefix, self.pos, self.trail = prefix, 0, []
        self.path = []              # list of (SymBool, taken)
        self.inputs = {}
        self.decided = {}
        self.z = Z()
        self.assumptions = []
        self.used_stubs = set()
        A.NONFINITE.clear()

    # ---- inputs
    def dim(self, name, lo=None, hi=None):
        A.size_head(name)
        s = A.SymInt(Expr.factor(name))
        if lo is not None and lo > 1:
            self.assumptions.append(A.mkcmp(">=", s.e - Expr.const(lo)))
        return s

    def array(self, name, *dims, **kw):
        ds = tuple(A.dim_of(d) for d in dims)
        import itertools
        blocks = {}
        for k in itertools.product(*[range(len(d)) for d in ds]):
            ix = [A.fv(a, p) for a in range(len(ds)) for p in range(len(ds[a][k[a]]))]
            if kw.get("symmetric") and len(k) == 2 and k[0] > k[1]:
                blocks[k] = A.swap_axes(blocks[(k[1], k[0])], 0, 1)
                continue
            h = name + ("" if all(len(d) == 1 for d in ds) else "_" + "_".join(map(str, k)))
            mkhead(h, "A", pos=bool(kw.get("positive")), sym=bool(kw.get("symmetric")) and len(ix) == 2)
            blocks[k] = Expr.factor(h, tuple(ix))
        if kw.get("constant"):
            # first column is the constant
            for k in blocks:
                if k[1] == 0:
                    blocks[k] = T.ONE
        a = A.ndarray(ds, blocks)
        self.inputs[name] = a
        return a

    def scalar(self, name, lo=None, hi=None, positive=False):
        mkhead(name, "A", pos=positive or (lo is not None and lo >= 0 and positive is not None and lo > 0))
        s = A.Sc(Expr.factor(name))
        if lo is not None:
            self.assumptions.append(A.mkcmp(">=", s.e - Expr.const(A.frac(lo))))
        if hi is not None:
            self.assumptions.append(A.mkcmp("<=", s.e - Expr.const(A.frac(hi))))
        return s

    def weights(self, name, n, kind="row", **kw):
        if kind in ("sym", "binary"):
            mkhead(name, "A", sym=True, extra="zd")
        return shims.SymW(name, n, transform="r" if kind in ("row", "sim") else "o")

    def spmatrix(self, name, n, m, **kw):
        a = self.array(name, n, m, **kw)
        r = A.csr_matrix(a.dims, a._blocks)
        self.inputs[name] = r
        return r

    def dense(self, x):
        return x.toarray() if isinstance(x, A.Arr) and x._issp else x

    def wd(self, w):
        return w.full()[0]

    def mod(self, name):
        return loader.load(name)

    def func(self, key):
        m, q = key.split(":")
        o = self.mod(m)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    def layout(self, a):
        """square matrices created with the size of a's rows are blocked like a."""
        d = a.dims[0]
        A.DIM_HINT[A.dim_expr(d).key()] = d
        return a

    def eye(self, n):
        return A.eye_arr(n)

    def ones(self, *d):
        return A.full(d, 1)

    def inv(self, m):
        return shims.la_inv(A.ndarray(m.dims, m._blocks) if m._issp else m)

    def logdet(self, m):
        return shims.logdet(m)

    def tr(self, m):
        return A.diagonal(m).sum()

    def mincalls(self):
        return shims.MINCALLS

    def chi2sf(self, x, df):
        return shims.stats.chi2.sf(x, df)

    def let(self, x):
        """abstract: replace every block by a named definition (unfolded only when needed)."""
        if isinstance(x, A.Arr):
            out = {}
            for k, e in x._blocks.items():
                out[k] = A.mklet(e, tuple(sorted(e.free(), reverse=True))) if len(e.d) > 2 else e
            return type(x)(x.dims, out)
        return A.Sc(A.mklet(x.e, ())) if len(x.e.d) > 2 else x

    # ---- conditions
    def assume(self, cond):
        if isinstance(cond, A.SymBool):
            self.assumptions.append(cond)
        elif not cond:
            raise Prune()

    def decide(self, cond):
        k = cond.key()
        if k in self.decided:
            return self.decided[k]
        nk = (~cond).key()
        if nk in self.decided:
            return not self.decided[nk]
        facts = self.assumptions + [c if t else ~c for c, t in self.path]
        r1 = self.z.feasible(facts, cond)
        r0 = None
        if r1 == "unsat":
            v = False
        else:
            r0 = self.z.feasible(facts, ~cond)
            v = True if r0 == "unsat" else None
        if v is None:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                v = True
            self.pos += 1
            self.trail.append(v)
            self.path.append((cond, v))
        self.decided[k] = v
        return v

    def choose(self, v):
        pass

    # ---- obligations
    def _ob(self, label, status, detail="", backend="normal-form", trivial=False, t=0.0):
        self.rec.obligation(self, label, status, detail, backend, trivial, t)

    def eq(self, label, a, b, tol=None, **kw):
        t0 = time.time()
        try:
            da, ba = squeeze_dims(*as_blocks(a))
            db, bb = squeeze_dims(*as_blocks(b))
            if da != db:
                if da == () and len(ba) == 1 or db == () and len(bb) == 1:
                    # broadcast of a scalar against an array is not equality of shapes
                    pass
                self._ob(label, "failed", "shapes differ: %s vs %s" % ([str(A.dim_expr(d)) for d in da],
                                                                       [str(A.dim_expr(d)) for d in db]))
                return
            for k in sorted(set(ba) | set(bb)):
                ea, eb = ba.get(k, T.ZERO), bb.get(k, T.ZERO)
                lab = label if len(ba) <= 1 else "%s%s" % (label, list(k))
                t1 = time.time()
                if self._equal(ea, eb):
                    self._ob(lab, "proved", trivial=not ea.d and not eb.d, t=time.time() - t1)
                else:
                    d = ea - eb
                    s = repr(d)
                    self._ob(lab, "failed", "difference does not normalise to 0: " + (s[:1500] + (" ..." if len(s) > 1500 else "")),
                             t=time.time() - t1)
        except Unsupported as e:
            self._ob(label, "unsupported", str(e), t=time.time() - t0)

    def _equal(self, a, b):
        if T.equal(a, b):
            return True
        return False

    def ge0(self, label, a, **kw):
        """a >= 0 for all values."""
        self._prove(label, A.mkcmp(">=", A.expr_of(a)))

    def _prove(self, label, cond):
        t0 = time.time()
        if isinstance(cond, bool):
            self._ob(label, "proved" if cond else "failed", "condition is %s" % cond, backend="evaluation", t=time.time() - t0)
            return
        facts = self.assumptions + [c if t else ~c for c, t in self.path]
        r, m = self.z.check(facts + [~cond], want_model=True, ms=20000)
        self._ob(label, "proved" if r == "unsat" else "failed", "z3: %s %s" % (r, m if m is not None else ""), backend="z3",
                 t=time.time() - t0)

    def true(self, label, cond, **kw):
        if isinstance(cond, A.BoolArr):
            cond = cond.all()
        self._prove(label, cond)

    def same(self, label, a, b):
        """equality of concrete (non-numeric) values."""
        try:
            ok = a == b
            ok = bool(ok) if not isinstance(ok, A.SymBool) else T.equal(A.expr_of(a), A.expr_of(b))
        except Unsupported as e:
            self._ob(label, "unsupported", str(e))
            return
        self._ob(label, "proved" if ok else "failed", "%r vs %r" % (a, b), backend="evaluation")

    def frame(self, label, *xs):
        """none of the arrays was written to through any alias."""
        for x in xs:
            if isinstance(x, A.Arr):
                self._ob(label, "proved" if not x.buf.writes else "failed", "writes: %s" % x.buf.writes, backend="frame")

    def frame_all(self, label):
        self.frame(label, *self.inputs.values())

    def sparse(self, x):
        return A.csr_matrix(x.dims, dict(x._blocks))

    def raises(self, label, f, exc=(Exception, SystemExit)):
        try:
            f()
        except EngineError:
            raise
        except exc as e:
            if not refused_by_code(e):
                raise Unsupported("%s: %s" % (type(e).__name__, e))
            self._ob(label, "proved", backend="evaluation")
            return
        except Exception as e:
            self._ob(label, "failed", "raised %r" % e, backend="evaluation")
            return
        self._ob(label, "failed", "no exception", backend="evaluation")

    def spoil(self, a):
        """declare an array to hold a NaN or an infinity."""
        A.NONFINITE.update(h for e in a.blocks.values() for h in e.heads())
        return a

    def structure(self, ok, why):
        """the decomposition used by this contract (which callee is called how) must match the code; when it does not, the
        contract decides nothing here and its concrete stand-in is used."""
        if not ok:
            raise Unsupported("contract decomposition does not fit the code: " + why)

    def loop(self, key, enter, back):
        """bind a loop contract (proof mode only)."""
        key = loader.find_loop(key)
        lc = LoopContract(self, key, enter, back)
        loader.LOOPS[key] = lc
        self.used_stubs.add("loop invariant " + key)
        return lc

    def stub_pandas(self, mod):
        """data frames of one module hold symbolic columns (trusted: DataFrame(matrix, columns) keeps column order, concat
        joins columns)."""
        m = loader.load(mod)
        loader.STUBS.setdefault((m.__name__, None, "pd"), (m, m.pd))
        m.pd = FakePandas
        self.used_stubs.add("pandas.DataFrame")

    def stub(self, key, fn):
        """use a callee contract instead of its body (proof mode only)."""
        self.used_stubs.add(key)
        loader.set_stub(key, fn)


# ------------------------------------------------------------------ concrete context
def real(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return importlib.import_module("spreg." + name)


class NumCtx(Ctx):
    symbolic = False

    def __init__(self, rec, seed, case, over=None, style=None):
        import scipy.sparse as SP
        import scipy.stats as ST
        self.rec, self.case, self.seed = rec, case, seed
        self.np = np
        self.sparse_mod = SP
        self.stats = ST
        self.rng = np.random.RandomState(seed % (2 ** 32))
        self.over = over or {}
        self.inputs, self.copies, self.dims, self.log = {}, {}, {}, {}
        self.style = self.rng.choice(["plain", "plain", "plain", "scaled", "integer", "shifted"])
        if style is not None:
            self.style = style
        self.nob = 0

    def dim(self, name, lo=None, hi=None):
        lo = lo or 2
        if hi is None:
            hi = {"n": 40}.get(name, lo + 3)
        v = int(self.over.get(name, self.rng.randint(lo, hi + 1)))
        self.dims[name] = v
        return v

    def array(self, name, *dims, **kw):
        g = self.rng
        shp = tuple(int(d) for d in dims)
        st = kw.get("style", self.style)
        if kw.get("positive"):
            a = g.uniform(0.5, 3.0, size=shp)
        elif st == "integer":
            a = g.randint(-9, 10, size=shp).astype(float) + (g.normal(size=shp) * 1e-3 if kw.get("generic") else 0)
            if a.ndim == 2 and a.shape[1] and not kw.get("rawint"):
                a = a + 0.125 * g.randint(-3, 4, size=shp)
        elif st == "scaled":
            a = g.normal(size=shp) * 10.0 ** g.uniform(-1.5, 1.5)
        elif st == "shifted":
            a = g.normal(size=shp) + g.uniform(-3, 3)
        else:
            a = g.normal(size=shp)
        if kw.get("symmetric"):
            a = (a + a.T) / 2
        if kw.get("zero_diag"):
            np.fill_diagonal(a, 0)
        if kw.get("constant") or (kw.get("maybe_constant") and g.rand() < 0.6):
            a[:, 0] = 1.0
        self.inputs[name] = a
        self.copies[name] = a.copy()
        return a

    def scalar(self, name, lo=None, hi=None, positive=False):
        if name in self.over:
            return float(self.over[name])
        lo = 0.1 if (lo is None and positive) else (-2.0 if lo is None else lo)
        hi = (3.0 if positive else 2.0) if hi is None else hi
        v = float(self.rng.uniform(lo, hi))
        self.log[name] = v
        return v

    def weights(self, name, n, kind="row", **kw):
        w = make_weights(self.rng, n, kind, **kw)
        self.inputs[name] = w
        self.copies[name] = w.sparse.toarray().copy()
        return w

    def spmatrix(self, name, n, m, **kw):
        a = self.array(name, n, m, **kw)
        a = a * (self.rng.rand(*a.shape) < 0.5)
        import scipy.sparse as SP
        s = SP.csr_matrix(a)
        self.inputs[name] = s
        self.copies[name] = s.toarray().copy()
        return s

    def dense(self, x):
        import scipy.sparse as SP
        return x.toarray() if SP.issparse(x) else np.asarray(x)

    def wd(self, w):
        return w.sparse.toarray()

    def mod(self, name):
        return real(name)

    def func(self, key):
        m, q = key.split(":")
        o = self.mod(m)
        try:
            for p in q.split("."):
                o = getattr(o, p)
        except AttributeError:
            raise Gone("%s does not exist any more" % key)
        return o

    def layout(self, a):
        return a

    def eye(self, n):
        return np.eye(n)

    def ones(self, *d):
        return np.ones(d)

    def inv(self, m):
        return np.linalg.inv(self.dense(m))

    def logdet(self, m):
        return np.linalg.slogdet(self.dense(m))[1]

    def tr(self, m):
        return np.trace(self.dense(m))

    def chi2sf(self, x, df):
        return self.stats.chi2.sf(x, df)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Reject()

    def fail(self, label, detail):
        raise Failed(label, detail)

    def ok(self, label):
        self.nob += 1
        self.rec.evaluated(self, label)

    def eq(self, label, a, b, tol=1e-6, scale=None, atol=1e-9):
        try:
            x, y = num(a), num(b)
        except Exception as e:
            self.fail(label, "not comparable: %r / %r: %r" % (type(a), type(b), e))
        if squeeze_shape(x.shape) != squeeze_shape(y.shape):
            self.fail(label, "shapes differ: %s vs %s" % (x.shape, y.shape))
        x, y = x.reshape(-1), y.reshape(-1)
        if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
            if not all(p == q for p, q in zip(x, y)):
                self.fail(label, "values differ: %s vs %s" % (short(x), short(y)))
            return self.ok(label)
        if x.size:
            bad = ~(np.isfinite(x) == np.isfinite(y))
            fin = np.isfinite(x) & np.isfinite(y)
            if bad.any():
                self.fail(label, "finite/non-finite mismatch: %s vs %s" % (short(x), short(y)))
            ref = scale if scale is not None else max(np.abs(y[fin]).max() if fin.any() else 0, 0)
            err = np.abs(x[fin] - y[fin])
            lim = atol + tol * np.maximum(np.abs(y[fin]), 1e-3 * ref if scale is None else ref)
            if (err > lim).any():
                i = int(np.argmax(err / lim))
                self.fail(label, "max deviation %.6g: code gives %s, contract requires %s" % (
                    err[i], short(x), short(y)))
        self.ok(label)

    def ge0(self, label, a, tol=1e-8):
        x = num(a)
        if x.size and np.min(x) < -tol * (1 + np.abs(x).max()):
            self.fail(label, "negative value %r" % np.min(x))
        self.ok(label)

    def true(self, label, cond, detail=""):
        if not bool(np.all(cond)):
            self.fail(label, "condition is false %s" % (detail,))
        self.ok(label)

    def same(self, label, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.array_equal(np.asarray(a), np.asarray(b))
        else:
            ok = a == b
        if not ok:
            self.fail(label, "%s vs %s" % (short(a), short(b)))
        self.ok(label)

    def frame(self, label, *xs):
        for nm, x in self.inputs.items():
            if any(x is y for y in xs):
                self._unchanged(label, nm, x)

    def sparse(self, x):
        return self.sparse_mod.csr_matrix(x)

    def frame_all(self, label):
        for nm, x in self.inputs.items():
            self._unchanged(label, nm, x)

    def _unchanged(self, label, nm, x):
        import scipy.sparse as SP
        cur = x if isinstance(x, np.ndarray) else (x.toarray() if SP.issparse(x) else x.sparse.toarray())
        if cur.shape != self.copies[nm].shape or not np.array_equal(cur, self.copies[nm], equal_nan=True):
            self.fail(label, "input %s was modified" % nm)
        self.ok(label)

    def raises(self, label, f, exc=(Exception, SystemExit)):
        try:
            f()
        except exc:
            return self.ok(label)
        except BaseException as e:
            if isinstance(e, (Reject, Timeout, KeyboardInterrupt, EngineError)):
                raise
            self.fail(label, "raised %r" % (e,))
        self.fail(label, "no exception raised")

    def spoil(self, a):
        a = np.array(a, dtype=float)
        a.reshape(-1)[self.rng.randint(a.size)] = (np.nan, np.inf, -np.inf)[self.rng.randint(3)]
        return a

    def structure(self, ok, why):
        pass

    def stub(self, key, fn):
        pass


def refused_by_code(e):
    """an exception the code raises itself (a raise statement in /repo), not an accident of the shims."""
    import linecache
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    fn, ln = tb.tb_frame.f_code.co_filename, tb.tb_lineno
    return "/spreg/" in fn and linecache.getline(fn, ln).strip().startswith("raise")


def num(x):
    import scipy.sparse as SP
    if SP.issparse(x):
        return x.toarray()
    if isinstance(x, np.matrix):
        return np.asarray(x)
    return np.asarray(x)


def squeeze_shape(s):
    return tuple(d for d in s if d != 1)


def short(x):
    s = np.array2string(np.asarray(x), precision=8, threshold=12) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) < 500 else s[:500] + "..."


def make_weights(rng, n, kind="row", ids=None, **kw):
    """connected-ish random libpysal weights without islands and with a zero diagonal."""
    import libpysal
    from libpysal.weights import W
    sym = kind in ("sym", "binary", "sim")
    if kind in ("row", "asym") and rng.rand() < 0.5:
        sym = True
    nb = {i: set() for i in range(n)}
    perm = rng.permutation(n)
    for a, b in zip(perm, np.roll(perm, 1)):
        if a != b:
            nb[a].add(b)
            if sym:
                nb[b].add(a)
    for i in range(n):
        for j in rng.choice(n, size=min(n, rng.randint(1, 4)), replace=False):
            if i != j and rng.rand() < 0.7:
                nb[i].add(j)
                if sym:
                    nb[j].add(i)
    for i in range(n):
        if not nb[i]:
            nb[i].add((i + 1) % n)
    if n >= 30 and kind in ("row", "gen") and rng.rand() < 0.12:      # an observation without neighbours
        k = int(rng.randint(n))
        nb[k] = set()
        for i in nb:
            nb[i].discard(k)
            if i != k and not nb[i]:
                j = (k + 1) % n if i != (k + 1) % n else (k + 2) % n
                nb[i].add(j)
                if sym:
                    nb[j].add(i)
    wts = {}
    for i in nb:
        for j in nb[i]:
            wts[(i, j)] = float(rng.choice([0.5, 1.0, 1.5, 2.0])) if kind in ("gen", "asym", "sym") else 1.0
    if kind in ("sym",):
        for (i, j) in list(wts):
            wts[(i, j)] = wts[(min(i, j), max(i, j))] if (min(i, j), max(i, j)) in wts else wts[(i, j)]
    if ids is None and rng.rand() < 0.3:        # observations known by names, not positions; neighbours in any order
        ids = ["id%d" % v for v in rng.permutation(n)] if rng.rand() < 0.5 else [int(v) * 3 + 7 for v in rng.permutation(n)]
    name = (lambda i: i) if ids is None else (lambda i: ids[i])
    seq = {i: sorted(nb[i]) if ids is None else sorted(nb[i], key=lambda j: str(ids[j])) for i in nb}
    order = list(range(n)) if ids is None else sorted(range(n), key=lambda i: (i * 7) % n)       # the dictionaries follow another order than id_order
    neigh = {name(i): [name(j) for j in seq[i]] for i in order}
    weights = {name(i): [wts[(i, j)] for j in seq[i]] for i in order}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = W(neigh, weights, id_order=[name(i) for i in range(n)], silence_warnings=True)
        if kind in ("row", "sim"):
            w.transform = "r"
    return w


# ------------------------------------------------------------------ recording
class Rec:
    def __init__(self, con, ci):
        self.con, self.ci = con, ci
        self.obs, self.nums, self.fails = [], 0, []
        self.labels = {}
        self.paths = 0

    def obligation(self, ctx, label, status, detail, backend, trivial, t):
        self.obs.append(dict(label=label, status=status, detail=detail if status != "proved" else "", backend=backend,
                             trivial=trivial, t=round(t, 4), path=self.paths))

    def evaluated(self, ctx, label):
        self.labels[label] = self.labels.get(label, 0) + 1


def _alarm(sig, frm):
    raise Timeout()


loader.SIGNALS[:] = [EngineError, Timeout, PathDone, Prune, Reject]


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s, 5.0)          # again, should the first one get lost

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def where():
    tb = traceback.format_exc().splitlines()
    return [l.strip() for l in tb if "/spreg/" in l][-1:] + tb[-1:]


def raised_by_spreg(e):
    """an exception raised by a statement of spreg itself (not inside the engine, the stand-in libraries or the contract)."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "/spreg/" in tb.tb_frame.f_code.co_filename




def run_sym(con, ci):
    """prove one contract case. -> dict"""
    rec = Rec(con, ci)
    case = (con.symcases or con.cases)[ci]
    t0 = time.time()
    pending = [[]]
    models = []
    ztime = 0.0
    stubs = set()
    A.LETMAX[0] = case.get("_let", 14)
    args = {k: v for k, v in case.items() if not k.startswith("_")}
    try:
        with limit(con.timeout):
            while pending:
                pre = pending.pop()
                if rec.paths >= con.maxpaths:
                    rec.obligation(None, "paths", "unsupported", "more than %d paths" % con.maxpaths, "paths", False, 0)
                    break
                c = SymCtx(rec, pre, case)
                shims.MINCALLS.clear()
                A.DIM_HINT.clear()
                loader.clear_stubs()
                A.DECIDER[0] = c.decide
                before = len(rec.obs)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        try:
                            con.body(c, **args)
                        except PathDone:
                            pass
                    for k, lc in loader.LOOPS.items():
                        c.structure(lc.entered, "loop %s was not reached" % k)
                    if len(rec.obs) == before:
                        rec.obligation(c, "no-obligation", "failed", "path generated no obligation", "vacuity", False, 0)
                    # reachability of the path (vacuity guard)
                    if c.assumptions or c.path:
                        r, _ = c.z.check(c.assumptions + [k if t else ~k for k, t in c.path])
                        if r == "unsat" and not c.path:
                            rec.obligation(c, "vacuous-precondition", "failed", "assumptions are contradictory", "z3", False, 0)
                except Prune:
                    pass
                except EngineError as e:
                    rec.obligation(c, "execution", "unsupported", "%s @ %s" % (e, " ".join(where())), "symbolic execution", False, 0)
                except Exception as e:
                    soft = isinstance(e, (AttributeError, TypeError, KeyError, NotImplementedError)) or not raised_by_spreg(e)
                    rec.obligation(c, "execution", "unsupported" if soft else "failed",
                                   "%s: %s @ %s" % (type(e).__name__, e, " ".join(where())), "symbolic execution", False, 0)
                except SystemExit as e:
                    rec.obligation(c, "execution", "failed", "SystemExit %s" % (e,), "symbolic execution", False, 0)
                new = rec.obs[before:]
                if any(o["status"] != "proved" for o in new) and c.path:
                    models.append(model_of(c))
                ztime += c.z.time
                stubs |= c.used_stubs
                for i in range(len(pre), len(c.trail)):
                    pending.append(c.trail[:i] + [not c.trail[i]])
                rec.paths += 1
    except Timeout:
        rec.obligation(None, "time", "unsupported", "contract exceeded %ss" % con.timeout, "timeout", False, 0)
    finally:
        A.DECIDER[0] = None
        loader.clear_stubs()
    return dict(kind="sym", contract=con.name, case=ci, obs=rec.obs, paths=rec.paths, wall=time.time() - t0, z3=ztime,
                models=models, stubs=sorted(stubs))


def model_of(c):
    """sizes / scalars satisfying the path condition (the verifier's counterexample), for concrete replay."""
    out = {"conds": ["%s%r" % ("" if t else "not ", k) for k, t in c.path][:6]}
    try:
        z = c.z
        facts = c.assumptions + [k if t else ~k for k, t in c.path]
        r, m = z.check(facts, want_model=True)
        if m is not None:
            vals = {}
            for d in m.decls():
                v = m[d]
                try:
                    vals[d.name()] = float(v.as_fraction()) if hasattr(v, "as_fraction") else float(v.as_long())
                except Exception:
                    pass
            out["over"] = {k: (int(v) if HEADS.get(k) and HEADS[k].kind == "size" else v) for k, v in vals.items()
                           if k in HEADS and HEADS[k].kind in ("size", "A")}
    except Exception:
        pass
    return out


def seed_of(con, ci, draw):
    h = hashlib.sha1(("%s|%s|%s|%s" % (con.prop, con.name, ci, draw)).encode()).digest()
    return (int.from_bytes(h[:4], "big") + 7919 * SEED) % (2 ** 32)


def near_unit_root():
    """concrete runs only: estimates at the end of their interval (|rho| > 0.9999) would keep the power expansion busy for minutes;
    its limit is computed directly then.  Smaller values run the code itself, and C14 has the contract of the expansion."""
    try:
        import spreg.utils as ut
        real = ut.power_expansion
    except Exception:
        return
    if getattr(real, "near_unit_root", False):
        return

    def power_expansion(w, data, scalar, *a, **kw):
        if not a and kw.get("threshold", 1e-10) <= 1e-6 and kw.get("max_iterations") is None and isinstance(scalar, (float, int)) and 0.9999 < abs(scalar) < 1:
            W = getattr(w, "sparse", w)
            W = W.toarray() if hasattr(W, "toarray") else np.asarray(W)
            if np.abs(W).sum(1).max() < 1 + 1e-9:
                A = np.eye(W.shape[0]) - scalar * W
                return np.linalg.solve(A.T, data.T).T if kw.get("post_multiply") else np.linalg.solve(A, data)
        return real(w, data, scalar, *a, **kw)

    power_expansion.near_unit_root = True
    ut.power_expansion = power_expansion


def run_num(con, ci, draws, start=0, over=None, stop_on_fail=True, budget=None, style=None, seed=None):
    near_unit_root()
    rec = Rec(con, ci)
    case = con.cases[ci]
    args = {k: v for k, v in case.items() if not k.startswith("_")}
    t0 = time.time()
    forced = seed
    done = rej = 0
    fail = None
    tries = 0
    sample = None
    while done < draws and tries < draws * 4:
        if budget and time.time() - t0 > budget:
            break
        draw = start + tries
        tries += 1
        seed = seed_of(con, ci, draw) if forced is None else forced
        c = NumCtx(rec, seed, case, over, style)
        random.seed(seed)
        np.random.seed(seed % (2 ** 32))
        try:
            try:
                with limit(max(con.timeout, 60)), warnings.catch_warnings(), np.errstate(all="ignore"), quiet():
                    warnings.simplefilter("ignore")
                    con.body(c, **args)
            except Timeout:                     # a busy machine: once more, with more time
                c = NumCtx(rec, seed, case, over, style)
                random.seed(seed)
                np.random.seed(seed % (2 ** 32))
                with limit(240), warnings.catch_warnings(), np.errstate(all="ignore"), quiet():
                    warnings.simplefilter("ignore")
                    con.body(c, **args)
            if c.nob == 0:
                raise Failed("no-obligation", "the contract evaluated no obligation")
            done += 1
            if sample is None:
                sample = dict(contract=con.name, case=case_repr(case), seed=seed, dims=c.dims, scalars=c.log, obligations=c.nob)
        except Reject:
            rej += 1
            continue
        except Timeout:
            fail = dict(label="time", detail="timed out", seed=seed, draw=draw)
            break
        except Failed as e:
            fail = dict(label=e.label, detail=e.detail, seed=seed, draw=draw)
        except Gone as e:
            return dict(kind="num", contract=con.name, case=ci, done=0, rejected=rej, labels={}, fail=None, wall=time.time() - t0, sample=None,
                        gone=str(e))
        except EngineError as e:
            fail = dict(label="engine", detail=repr(e), seed=seed, draw=draw)
        except SystemExit as e:
            fail = dict(label="execution", detail="SystemExit: %s" % (e,), seed=seed, draw=draw)
        except Exception as e:
            if outside(e):
                return dict(kind="num", contract=con.name, case=ci, done=0, rejected=rej, labels={}, fail=None, wall=time.time() - t0, sample=None,
                            gone=str(e))
            fail = dict(label="execution", detail="%s: %s @ %s" % (type(e).__name__, e, " | ".join(where())), seed=seed, draw=draw)
        if fail:
            fail.update(contract=con.name, prop=con.prop, case=ci, case_args=case_repr(case), over=over, style=str(c.style),
                        dims=c.dims, scalars=c.log, inputs={k: dump(v) for k, v in c.inputs.items()})
            break
    return dict(kind="num", contract=con.name, case=ci, done=done, rejected=rej, labels=rec.labels, fail=fail,
                wall=time.time() - t0, sample=sample)


def case_repr(case):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None), list)) else repr(v)) for k, v in case.items()}


def dump(v):
    try:
        import scipy.sparse as SP
        a = v if isinstance(v, np.ndarray) else (v.toarray() if SP.issparse(v) else v.sparse.toarray())
        return a.tolist() if a.size <= 4000 else "array %s (regenerated from the seed)" % (a.shape,)
    except Exception:
        return repr(v)[:200]


class quiet:
    """silence stdout of the code under test."""

    def __enter__(self):
        import io
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.old
        return False
