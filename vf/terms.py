"""Index-notation term algebra: the normal-form decision procedure.

An Expr is a finite sum of monomials with rational coefficients.  A monomial is
a product of factors  head[idx, idx, ...]^exp  under a block of bound (summed)
index variables.  Heads are uninterpreted real tensors (inputs), symbolic array
dimensions, inverses of canonical matrices, elementwise functions of canonical
expressions, or powers of canonical multi-term expressions.

Index variables are ints: negative = free (owned by the enclosing array),
non-negative = bound.  Bound variables are renumbered canonically, so equality
of Exprs is equality of dictionaries.
"""
import hashlib, itertools
from fractions import Fraction
from functools import lru_cache

class EngineError(BaseException):
    """Base of engine signals; never caught by the code under verification."""

class Unsupported(EngineError):
    pass

class TooBig(Unsupported):
    pass

STATS = {"canon": 0, "eq": 0, "inv_rule": 0}
LIMIT_MONOS = 60000

HEADS = {}           # key -> Head


class Head:
    __slots__ = ("key", "kind", "arg", "sym", "pos", "extra")

    def __init__(self, key, kind, arg=None, sym=False, pos=False, extra=None):
        self.key, self.kind, self.arg, self.sym, self.pos, self.extra = key, kind, arg, sym, pos, extra


def mkhead(key, kind, arg=None, sym=False, pos=False, extra=None):
    h = HEADS.get(key)
    if h is None:
        h = HEADS[key] = Head(key, kind, arg, sym, pos, extra)
    elif kind == "A" and h.kind == "A" and (sym, pos, extra) != (h.sym, h.pos, h.extra):
        raise EngineError("two different declarations of " + key)
    return h


DELTA = "~d"
mkhead(DELTA, "delta", sym=True)


def sha(s):
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def fexp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


class Expr:
    __slots__ = ("d", "_key")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._key = None

    # ---- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Expr({((), ()): c}) if c else Expr()

    @staticmethod
    def factor(headkey, idxs=(), exp=1):
        return canon([(headkey, tuple(idxs), exp)], {})

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and ((), ()) in self.d)

    def const_value(self):
        return self.d.get(((), ()), Fraction(0))

    def key(self):
        if self._key is None:
            self._key = sha(repr(sorted((m, str(c)) for m, c in self.d.items())) if self.d else "0")
        return self._key

    def __eq__(self, o):
        return isinstance(o, Expr) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    # ---- ring operations
    def __add__(self, o):
        if not self.d:
            return o
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Expr(d)

    def scale(self, c):
        if not c:
            return Expr()
        if c == 1:
            return self
        return Expr({m: v * c for m, v in self.d.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.d or not o.d:
            return Expr()
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        if len(self.d) * len(o.d) > LIMIT_MONOS:
            raise TooBig("product of %d x %d monomials" % (len(self.d), len(o.d)))
        out = {}
        for (f1, b1), c1 in self.d.items():
            n1 = len(b1)
            for (f2, b2), c2 in o.d.items():
                if b2:
                    f2s = [(h, tuple(i + n1 if i >= 0 else i for i in ix), e) for h, ix, e in f2]
                else:
                    f2s = list(f2)
                r = canon(list(f1) + f2s, {i: s for i, s in enumerate(b1 + b2)})
                cc = c1 * c2
                for m, c in r.d.items():
                    v = out.get(m, 0) + c * cc
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
        return Expr(out)

    def subst(self, mp):
        """rename free (negative) indices; mp: old->new (negative ints)."""
        if not mp or not self.d:
            return self
        out = {}
        for (f, b), c in self.d.items():
            fs = [(h, tuple(mp.get(i, i) for i in ix), e) for h, ix, e in f]
            r = canon(fs, {i: s for i, s in enumerate(b)})
            for m, cc in r.d.items():
                v = out.get(m, 0) + cc * c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return Expr(out)

    def sum_over(self, free, size):
        """sum over a free index variable of the given atomic size (a head key)."""
        out = {}
        for (f, b), c in self.d.items():
            nb = len(b)
            fs = [(h, tuple(nb if i == free else i for i in ix), e) for h, ix, e in f]
            bs = {i: s for i, s in enumerate(b)}
            bs[nb] = size
            r = canon(fs, bs)
            for m, cc in r.d.items():
                v = out.get(m, 0) + cc * c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return Expr(out)

    def free(self):
        s = set()
        for (f, b) in self.d:
            for h, ix, e in f:
                s.update(i for i in ix if i < 0)
        return s

    def heads(self):
        s = set()
        for (f, b) in self.d:
            for h, ix, e in f:
                s.add(h)
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        parts = []
        for (f, b), c in sorted(self.d.items(), key=lambda t: repr(t[0])):
            s = "" if c == 1 else ("-" if c == -1 else str(c) + "*")
            if b:
                s += "S(%s)" % ",".join("%d:%s" % (i, x) for i, x in enumerate(b))
            s += "*".join("%s%s%s" % (h, "[%s]" % ",".join(map(idxname, ix)) if ix else "",
                                       "" if e == 1 else "^%s" % (e,)) for h, ix, e in f) or "1"
            parts.append(s)
        return " + ".join(parts)


def idxname(i):
    return str(i) if i >= 0 else "abcdefghijklmnop"[(-i - 1) % 16]


ZERO = Expr()
ONE = Expr.const(1)


# --------------------------------------------------------------- canonical form
def canon(factors, bound):
    """factors: list of (head, idxs, exp); bound: {var: size key}. -> Expr"""
    STATS["canon"] += 1
    bound = dict(bound)
    coef = Fraction(1)
    # deltas
    changed = True
    fs = factors
    while changed:
        changed = False
        for n_, (h, ix, e) in enumerate(fs):
            if h == DELTA:
                a, b = ix
                if a == b:
                    fs = fs[:n_] + fs[n_ + 1:]
                    changed = True
                    break
                if a >= 0 or b >= 0:
                    if a >= 0 and (b < 0 or b < a):
                        old, new = a, b
                    else:
                        old, new = b, a
                    fs = fs[:n_] + fs[n_ + 1:]
                    fs = [(h2, tuple(new if i == old else i for i in ix2), e2) for h2, ix2, e2 in fs]
                    bound.pop(old, None)
                    changed = True
                    break
    # merge
    acc = {}
    for h, ix, e in fs:
        H = HEADS[h]
        if H.sym and len(ix) == 2 and ix[0] > ix[1]:
            ix = (ix[1], ix[0])
        if H.extra == "zd" and ix[0] == ix[1]:
            return Expr()            # matrix declared with a zero diagonal
        if h == DELTA:
            acc[(h, ix)] = 1
        else:
            acc[(h, ix)] = acc.get((h, ix), 0) + e
    fl = []
    expand = None
    for (h, ix), e in acc.items():
        e = fexp(e)
        if e == 0:
            continue
        H = HEADS[h]
        if H.kind == "num" and isinstance(H.arg, Fraction):
            whole = e.__floor__() if isinstance(e, Fraction) else int(e)
            coef *= Fraction(H.arg) ** whole
            e = fexp(e - whole)
            if e == 0:
                continue
        if H.kind == "poly" and e >= 1:
            expand = (h, ix, e)
        fl.append((h, ix, e))
    if coef != 1:
        return canon(fl, bound).scale(coef)
    if expand is not None:
        h, ix, e = expand
        fl.remove(expand)
        rest = list(fl)
        whole = e.__floor__() if isinstance(e, Fraction) else e
        if e - whole:
            rest.append((h, ix, e - whole))
        base = _mono_expr(rest, bound)
        pe = HEADS[h].arg
        nb = max([v for v in bound] + [-1]) + 1
        # substitute head parameters by actual indices then multiply termwise
        cur = [(tuple(rest), dict(bound), Fraction(1))]
        for _ in range(whole):
            nxt = []
            for f0, b0, c0 in cur:
                off = max([v for v in b0] + [-1]) + 1
                for (pf, pb), pc in pe.d.items():
                    nf = [(hh, tuple((i + off) if i >= 0 else ix[-i - 1] for i in iix), ee) for hh, iix, ee in pf]
                    nb_ = dict(b0)
                    for i, s in enumerate(pb):
                        nb_[off + i] = s
                    nxt.append((tuple(f0) + tuple(nf), nb_, c0 * pc))
            cur = nxt
        out = Expr()
        for f0, b0, c0 in cur:
            out = out + canon(list(f0), b0).scale(c0)
        return out
    # unused bound variables
    used = set()
    for h, ix, e in fl:
        used.update(ix)
    extra = []
    for v in list(bound):
        if v not in used:
            s = bound.pop(v)
            if s is not None:
                extra.append((s, (), 1))
    if extra:
        acc = {(h, ix): e for h, ix, e in fl}
        for h, ix, e in extra:
            acc[(h, ix)] = acc.get((h, ix), 0) + e
        fl = [(h, ix, e) for (h, ix), e in acc.items() if e]
    # inverse / special rules
    r = special_rules(fl, bound)
    if r is not None:
        return r
    return _finish(fl, bound)


def _mono_expr(fl, bound):
    return None


def _finish(fl, bound):
    nb = len(bound)
    if nb == 0:
        fl = tuple(sorted(fl, key=_fkey))
        return Expr({(fl, ()): Fraction(1)})
    if nb == 1:
        (v, s), = bound.items()
        if v != 0:
            fl = [(h, _symix(h, tuple(0 if i == v else i for i in ix)), e) for h, ix, e in fl]
        fl = tuple(sorted(fl, key=_fkey))
        return Expr({(fl, (s,)): Fraction(1)})
    # several summed variables: factor out the part with no link is not needed; label canonically
    order = _label(fl, bound)
    mp = {v: i for i, v in enumerate(order)}
    fl = [(h, _symix(h, tuple(mp.get(i, i) for i in ix)), e) for h, ix, e in fl]
    fl = tuple(sorted(fl, key=_fkey))
    return Expr({(fl, tuple(bound[v] for v in order)): Fraction(1)})


def _symix(h, ix):
    if len(ix) == 2 and ix[0] > ix[1] and HEADS[h].sym:
        return (ix[1], ix[0])
    return ix


def _fkey(f):
    return (f[0], f[1], str(f[2]))


def _refine(fl, bound, color):
    """color: var->int. Iterate colour refinement to a stable partition."""
    while True:
        sig = {v: [] for v in bound}
        for h, ix, e in fl:
            symh = HEADS[h].sym and len(ix) == 2
            for p, v in enumerate(ix):
                if v >= 0:
                    if symh:
                        o = ix[1 - p]
                        sig[v].append((h, str(e), 0, ((color[o] if o >= 0 else o),)))
                    else:
                        sig[v].append((h, str(e), p, tuple((color[o] if o >= 0 else o) if q != p else -99
                                                            for q, o in enumerate(ix))
                                       + tuple(q for q, o in enumerate(ix) if o == v)))
        full = {v: (color[v], bound[v], tuple(sorted(sig[v]))) for v in bound}
        ranks = {s: i for i, s in enumerate(sorted(set(full.values())))}
        new = {v: ranks[full[v]] for v in bound}
        if len(set(new.values())) == len(set(color.values())):
            return new
        color = new


def _label(fl, bound):
    color = _refine(fl, bound, {v: 0 for v in bound})
    best = [None, None]
    budget = [400]

    def encode(order):
        mp = {v: i for i, v in enumerate(order)}
        return sorted(_fkey((h, _symix(h, tuple(mp.get(i, i) for i in ix)), e)) for h, ix, e in fl)

    def rec(color):
        if budget[0] <= 0:
            return
        classes = {}
        for v, c in color.items():
            classes.setdefault(c, []).append(v)
        tied = [c for c in sorted(classes) if len(classes[c]) > 1]
        if not tied:
            budget[0] -= 1
            order = sorted(bound, key=lambda v: color[v])
            en = encode(order)
            if best[0] is None or en < best[0]:
                best[0], best[1] = en, order
            return
        c = tied[0]
        for v in classes[c]:
            nc = {u: 2 * col + (1 if (col == c and u != v) else 0) for u, col in color.items()}
            rec(_refine(fl, bound, nc))

    rec(color)
    return best[1]


# --------------------------------------------------------------- rewriting rules
def special_rules(fl, bound):
    """Return a rewritten Expr, or None when no rule applies."""
    for n_, (h, ix, e) in enumerate(fl):
        H = HEADS[h]
        if H.kind == "inv" and e == 1 and len(ix) == 2:
            for side in (0, 1):
                b = ix[side]
                if b < 0 or b not in bound:
                    continue
                r = _try_inverse(fl, bound, n_, H, side)
                if r is not None:
                    STATS["inv_rule"] += 1
                    return r
    if bound:
        for n_, (h, ix, e) in enumerate(fl):
            H = HEADS[h]
            if H.kind == "fn" and H.extra == "log" and e == 1 and len(ix) == 1 and ix[0] in bound:
                if sum(ix[0] in f[1] for f in fl) == 1:
                    r = logdet_rule(H)
                    if r is not None:
                        rest = [f for m, f in enumerate(fl) if m != n_]
                        b2 = {v: s for v, s in bound.items() if v != ix[0]}
                        return canon(rest, b2) * r
    return None


LOGDET_HOOK = [None]


def logdet_rule(H):
    return LOGDET_HOOK[0](H) if LOGDET_HOOK[0] else None


def lead_mono(e):
    """the monomial used as left-hand side of  M inv(M) = I :  not delta, most factors."""
    best = None
    for m in e.d:
        if any(f[0] == DELTA for f in m[0]):
            continue
        k = (sum(1 for f in m[0] if f[1]), len(m[0]), repr(m))
        if best is None or k > best[0]:
            best = (k, m)
    return best[1] if best else None


_LEAD = {}


def _try_inverse(fl, bound, n_, H, side):
    """contract inv(M)[..b..] with an occurrence of M's leading monomial sharing b.

    side 0: sum_b M[a,b] inv[b,c] ; side 1: sum_b inv[c,b] M[b,a].
    """
    M = H.arg                      # Expr in free vars -1 (row), -2 (col)
    if H.key not in _LEAD:
        _LEAD[H.key] = lead_mono(M)
    lead = _LEAD[H.key]
    if lead is None:
        return None
    h, ix, e = fl[n_]
    b, c = ix[side], ix[1 - side]
    if b == c:
        return None
    # occurrences of b elsewhere
    pat_all, pb = lead
    pat = [f for f in pat_all if f[1]]            # indexed factors
    scal = [f for f in pat_all if not f[1]]       # scalar factors: divided out
    # which free param meets b
    meets = [-2 if side == 0 else -1]
    if H.sym:
        meets = [-2, -1]
    others = [m for m in range(len(fl)) if m != n_]
    occ_b = [m for m in others if b in fl[m][1]]
    for meet in meets:
        other = -1 if meet == -2 else -2
        # exact number of occurrences of b must match
        cnt = sum(f[1].count(meet) for f in pat)
        if sum(fl[m][1].count(b) for m in occ_b) != cnt or cnt == 0:
            continue
        for asg, usedf in _match(pat, fl, set(others), {meet: b}, bound, other):
            # pattern's own bound vars must be consumed entirely
            ok = True
            vals = [asg[v] for v in range(len(pb))]
            if len(set(vals)) != len(vals) or b in vals:
                continue
            for pv in range(len(pb)):
                v = asg[pv]
                if v < 0 or v not in bound or bound[v] != pb[pv]:
                    ok = False
                    break
                tot = sum(fl[m][1].count(v) for m in range(len(fl)))
                inside = sum(f[1].count(pv) for f in pat)
                if tot != inside:
                    ok = False
                    break
            if not ok or other not in asg:
                continue
            a = asg[other]
            if a == b:
                continue
            rest = []
            usedmap = dict(usedf)
            bad = False
            for m in others:
                if m in usedmap:
                    left = fl[m][2] - usedmap[m]
                    if left:
                        rest.append((fl[m][0], fl[m][1], left))
                else:
                    rest.append(fl[m])
            for f in rest:
                if b in f[1]:
                    bad = True
            if bad:
                continue
            b2 = {v: s for v, s in bound.items() if v not in vals}
            lc = M.d[lead]
            for f in scal:
                rest = rest + [(f[0], f[1], -f[2])]
            # lc*scal*PAT = M - others ; sum_b M inv = delta
            b3 = {v: s for v, s in b2.items() if v != b}
            out = canon(rest + [(DELTA, (a, c), 1)], b3)
            for m, mc in M.d.items():
                if m == lead:
                    continue
                off = max(list(b2) + [-1]) + 1
                mp = {meet: b, other: a}
                nf = [(hh, tuple(i + off if i >= 0 else mp[i] for i in iix), ee) for hh, iix, ee in m[0]]
                nb = dict(b2)
                for i, s in enumerate(m[1]):
                    nb[off + i] = s
                out = out - canon(rest + nf + [(h, ix, e)], nb).scale(mc)
            return out.scale(1 / lc)
    return None


def _match(pat, fl, avail, asg, bound, other):
    """enumerate ways to match pattern factors onto fl factors."""
    def rec(i, asg, used):
        if i == len(pat):
            yield dict(asg), list(used.items())
            return
        h, ix, e = pat[i]
        for m in sorted(avail):
            hh, iix, ee = fl[m]
            if hh != h:
                continue
            left = ee - used.get(m, 0)
            if (e > 0) != (ee > 0) or abs(left) < abs(e):
                continue
            perms = [iix]
            if HEADS[h].sym and len(iix) == 2 and iix[0] != iix[1]:
                perms.append((iix[1], iix[0]))
            for p in perms:
                a2 = dict(asg)
                ok = True
                for x, y in zip(ix, p):
                    if x in a2:
                        if a2[x] != y:
                            ok = False
                            break
                    else:
                        a2[x] = y
                if ok:
                    u2 = dict(used)
                    u2[m] = u2.get(m, 0) + e
                    yield from rec(i + 1, a2, u2)
    yield from rec(0, asg, {})


# --------------------------------------------------------------- functions and powers
def _abstract_params(e):
    """Rename the free variables of e to -1,-2,.. canonically. -> (expr, actual idx tuple)"""
    fr = sorted(e.free(), reverse=True)
    if len(fr) <= 1:
        mp = {v: -(i + 1) for i, v in enumerate(fr)}
        return e.subst(mp), tuple(fr)
    best = None
    for perm in itertools.permutations(fr):
        tmp = {v: -(1000 + i) for i, v in enumerate(perm)}
        e2 = e.subst(tmp).subst({-(1000 + i): -(i + 1) for i in range(len(perm))})
        k = repr(sorted((m, str(c)) for m, c in e2.d.items()))
        if best is None or k < best[0]:
            best = (k, e2, perm)
    return best[1], tuple(best[2])


def apply_fn(name, e):
    p, idx = _abstract_params(e)
    key = "%s{%s}" % (name, p.key())
    mkhead(key, "fn", arg=p, extra=name, pos=(name in ("exp", "abs_")))
    return Expr.factor(key, idx)


def _mono_split(e):
    (m, c), = e.d.items()
    return m, c


def isqrt_frac(c):
    from math import isqrt
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def powr(e, p):
    p = fexp(Fraction(p))
    if p == 0:
        return ONE
    if p == 1:
        return e
    if e.is_zero():
        if p > 0:
            return ZERO
        raise Unsupported("division by a term that normalises to zero")
    if isinstance(p, int) and p > 0:
        out = e
        for _ in range(p - 1):
            out = out * e
        return out
    if len(e.d) == 1:
        (fs, b), c = _mono_split(e)
        if not b and all(f[0] != DELTA for f in fs):
            if isinstance(p, int):
                return canon([(h, ix, fexp(x * p)) for h, ix, x in fs], {}).scale(c ** p)
            # fractional power: only distribute over positive heads
            if all(HEADS[h].pos for h, ix, x in fs):
                r = canon([(h, ix, fexp(x * p)) for h, ix, x in fs], {})
                return r * const_pow(c, p)
            # pull out positive factors, and even integer powers stay inside
            posf = [(h, ix, fexp(x * p)) for h, ix, x in fs if HEADS[h].pos]
            oth = [(h, ix, x) for h, ix, x in fs if not HEADS[h].pos]
            if c > 0:
                base = canon(oth, {})
                return canon(posf, {}) * const_pow(c, p) * _polyhead(base, p)
            base = canon(oth, {}).scale(-1)
            return canon(posf, {}) * const_pow(-c, p) * _polyhead(base, p)
    # content normalisation
    cont, scal, core = content(e)
    if isinstance(p, int):
        out = _polyhead(core, p).scale(Fraction(cont) ** p)
        if scal:
            out = out * canon([(h, ix, fexp(x * p)) for h, ix, x in scal], {})
        return out
    sgn = 1 if cont > 0 else -1
    posf = [(h, ix, x) for h, ix, x in scal if HEADS[h].pos]
    oth = [(h, ix, x) for h, ix, x in scal if not HEADS[h].pos]
    if oth:
        core = core * canon(oth, {})
        c2, s2, core = core_leading(core)
        sgn = sgn * c2
    out = _polyhead(core.scale(sgn), p) * const_pow(abs(cont), p)
    if posf:
        out = out * canon([(h, ix, fexp(x * p)) for h, ix, x in posf], {})
    return out


def core_leading(e):
    return 1, [], e


def const_pow(c, p):
    c = Fraction(c)
    if c == 1:
        return ONE
    r = isqrt_frac(c)
    if r is not None and fexp(p * 2) == int(p * 2):
        return Expr.const(r ** int(p * 2))
    key = "#%s" % c
    mkhead(key, "num", arg=c, pos=True)
    p = fexp(Fraction(p))
    whole = p.__floor__()
    out = Expr.const(c ** whole)
    if p - whole:
        out = out * Expr.factor(key, (), fexp(p - whole))
    return out


def content(e):
    """e = cont * (scalar factors) * core, core having leading coefficient 1 (deterministic)."""
    ms = sorted(e.d, key=repr)
    cont = e.d[ms[0]]
    # common scalar (index-free) factors
    common = None
    for m in ms:
        s = {(h, ix): x for h, ix, x in m[0] if not ix}
        if common is None:
            common = s
        else:
            nc = {}
            for k, x in common.items():
                y = s.get(k, 0)
                v = min(x, y)
                if v:
                    nc[k] = v
            for k, y in s.items():
                if k not in common and y < 0:
                    nc[k] = y
            common = nc
    scal = [(h, ix, x) for (h, ix), x in (common or {}).items() if HEADS[h].kind != "poly" or True]
    if scal:
        inv = canon([(h, ix, -x) for h, ix, x in scal], {}) if not any(
            HEADS[h].kind == "poly" and -x >= 1 for h, ix, x in scal) else None
        if inv is None:
            core = Expr()
            for m, c in e.d.items():
                acc = {(h, ix): x for h, ix, x in m[0]}
                for h, ix, x in scal:
                    acc[(h, ix)] = acc.get((h, ix), 0) - x
                core = core + canon([(h, ix, x) for (h, ix), x in acc.items() if x],
                                    {i: s for i, s in enumerate(m[1])}).scale(c)
        else:
            core = e * inv
    else:
        core = e
    ms = sorted(core.d, key=repr)
    cont = core.d[ms[0]]
    return cont, scal, core.scale(1 / cont)


def _polyhead(core, p):
    q, idx = _abstract_params(core)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if c == 1 and len(m[0]) == 1 and not m[1] and m[0][0][2] == 1:
            return Expr.factor(m[0][0][0], core_idx(core), p)
    key = "({%s})" % q.key()
    mkhead(key, "poly", arg=q)
    return Expr.factor(key, idx, p)


def core_idx(core):
    (m, c), = core.d.items()
    return m[0][0][1]


# --------------------------------------------------------------- equality
def clear_denominators(e, budget=12):
    """Multiply by scalar/free-index 'poly' denominators until none is left (or budget)."""
    for _ in range(budget):
        cand = {}
        for (fs, b) in e.d:
            for h, ix, x in fs:
                if HEADS[h].kind == "poly" and x < 0 and all(i < 0 for i in ix):
                    k = (h, ix)
                    cand[k] = min(cand.get(k, 0), x)
        if not cand:
            return e
        (h, ix), x = sorted(cand.items(), key=lambda t: (len(HEADS[t[0][0]].arg.d), t[0]))[0]
        out = Expr()
        for m, c in e.d.items():
            fs = list(m[0])
            out = out + canon(fs + [(h, ix, -x)], {i: s for i, s in enumerate(m[1])}).scale(c)
        e = out
        if e.is_zero():
            return e
        if len(e.d) > LIMIT_MONOS:
            raise TooBig("clearing denominators")
    return e


def equal(a, b):
    """decide a == b: normal forms, then with every let-abstraction unfolded, then with denominators cleared."""
    from . import rewrite
    STATS["eq"] += 1
    d = a - b
    if d.is_zero():
        return True
    u = rewrite.unfold(d)
    if u.is_zero():
        return True
    u = clear_denominators(u)
    return u.is_zero()
