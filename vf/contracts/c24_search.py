"""C24: the specification searches return the model that their decision rule selects."""
import contextlib
import inspect
import io
import sys

import numpy as np

from ..engine import Reject, contract
from ..terms import EngineError
from . import zoo

S = "spsearch:"
STATS = ["lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "lm_wx", "rlm_wx", "rlm_durlag", "lm_spdurbin"]


# ---------------------------------------------------------------- scripted estimators
class Script:
    """The estimators and tests that the searches call, by their contract: a p-value (an arbitrary number in [0,1]) per statistic
    and per model, and a refusal (hard_bound) or not per model.  Calls are recorded with the arguments bound to the signature of
    the real estimator, defaults included."""

    def __init__(self, c, k, p):
        import spreg
        self.c, self.k, self.p, self.calls = c, k, p, []
        self.real = {"OLS": spreg.OLS, "GM_Lag": spreg.GM_Lag, "GMM_Error": spreg.GMM_Error}
        self.seen = {}

    def key(self, spec):
        return "_".join(str(v) for v in spec).replace("None", "").replace(" ", "")

    def pv(self, name):
        """the p-value of a test of a model, the same whenever it is asked for"""
        if name not in self.seen:
            c = self.c
            if c.symbolic:
                v = c.scalar(name, 0, 1)
                c.assume(v != self.p)
                for o in self.seen.values():
                    c.assume(v != o)
            else:
                v = c.scalar(name, 0, 1)
                if zoo.flip(c):
                    v = v * self.p
            self.seen[name] = v
        return self.seen[name]

    def bad(self, spec):
        """is the model refused?"""
        name = "refuse_" + self.key(spec)
        if name not in self.seen:
            v = self.c.scalar(name, -1, 1)
            self.seen[name] = v if self.c.symbolic else v - 0.6
        return self.seen[name] > 0

    def spec(self, fam, a):
        if fam == "OLS":
            return ("OLS", a["slx_lags"])
        if fam == "GM_Lag":
            return ("GM_Lag", a["slx_lags"], a["w_lags"])
        return ("GMM_Error", a["slx_lags"], bool(a["add_wy"])) + ((a["w_lags"],) if a["add_wy"] else ())

    def estimator(self, fam):
        script, real = self, self.real[fam]
        sig = inspect.signature(real.__init__)

        class Fake:
            def __init__(self, *a, **kw):
                b = sig.bind(self, *a, **kw)
                b.apply_defaults()
                args = {k: v for k, v in b.arguments.items() if k != "self"}
                args.update(args.pop("options_kwargs", {}))
                args.update(args.pop("kwargs", {}))
                self.args, self.spec, self.fam = args, script.spec(fam, args), fam
                script.calls.append(self)
                if fam != "OLS" and args.get("hard_bound") and script.bad(self.spec):
                    raise Exception("Spatial parameter was outside the bounds of -0.99 and 0.99")
                self.key = script.key(self.spec)
                self.name_y = args["name_y"] or "dep_var"
                self.name_x = ["CONSTANT"] + list(args["name_x"] or ["var_%d" % (i + 1) for i in range(script.k)])
                self.summary = "SUMMARY OF " + self.key
                self.n, self.k = args["y"].shape[0], script.k + 1
                gam = script.k * args["slx_lags"]
                self.name_x = self.name_x + ["W_%d" % i for i in range(gam)]
                names = ["const"] + ["x%d" % i for i in range(script.k)] + ["gamma%d" % i for i in range(gam)]
                if fam == "GM_Lag" or fam == "GMM_Error" and args["add_wy"]:
                    names.append("rho")
                if fam == "GMM_Error":
                    names.append("lambda")
                self.order = names
                if fam != "OLS":
                    self.z_stat = [(0.5, self.p(q) if q.startswith(("gamma", "rho", "lambda")) else 0.5) for q in names]
                else:
                    for q in STATS:
                        setattr(self, q, (1.0, self.p(q)))
                if fam == "GM_Lag":
                    self.cfh_test = (1.0, self.p("cfh"))

            def p(self, q):
                return script.pv("%s_%s" % (q, self.key))
        Fake.__name__ = fam
        return Fake

    def ak(self):
        script = self

        class AK:
            def __init__(self, iv, w, case="nosp"):
                assert w is script.w
                self.p = script.pv("ak_" + iv.key)
                script.cases.append(case)
                self.mi, self.ak = 0.0, 1.0
        return AK

    def lm(self):
        script = self

        class LM:
            def __init__(self, ols, w, tests=["all"]):
                assert w is script.w
                self.lme = (1.0, ols.p("lm_error"))
                self.lml = (1.0, ols.p("lm_lag"))
                self.rlme = (1.0, ols.p("rlm_error"))
                self.rlml = (1.0, ols.p("rlm_lag"))
                self.sarma = (1.0, ols.p("lm_sarma"))
        return LM

    def install(self, w):
        self.w, self.cases = w, []
        fakes = {("ols", "OLS"): self.estimator("OLS"), ("twosls_sp", "GM_Lag"): self.estimator("GM_Lag"),
                 ("error_sp", "GMM_Error"): self.estimator("GMM_Error"), ("diagnostics_sp", "AKtest"): self.ak(),
                 ("diagnostics_sp", "LMtests"): self.lm()}
        if self.c.symbolic:
            for (m, q), f in fakes.items():
                self.c.stub("%s:%s" % (m, q), f)
            return contextlib.nullcontext()
        return replaced({getattr(self.c.mod(m), q): f for (m, q), f in fakes.items()})


@contextlib.contextmanager
def replaced(by):
    """every spreg module sees the stand-ins instead of the estimators"""
    old = []
    for name, mod in list(sys.modules.items()):
        if name == "spreg" or name.startswith("spreg."):
            for k, v in list(vars(mod).items()):
                if inspect.isclass(v) and v in by:
                    old.append((mod, k, v))
                    setattr(mod, k, by[v])
    try:
        yield
    finally:
        for mod, k, v in old:
            setattr(mod, k, v)


# ---------------------------------------------------------------- the decision rules (Anselin, Serenini, Amaral 2024)
OLS, SLX = ("OLS", 0), ("OLS", 1)


def LAG(t):
    return ("GM_Lag", 0, t.wl)


def SDM(t):
    return ("GM_Lag", 1, t.wl)


ERR, SLXERR = ("GMM_Error", 0, False), ("GMM_Error", 1, False)


def SARSAR(t):
    return ("GMM_Error", 0, True, t.wl)


def GNS(t):
    return ("GMM_Error", 1, True, t.wl)


class T:
    """what the rules look at"""

    def __init__(self, s, wl, refused=None, value=None):
        self.s, self.wl, self._bad, self._value = s, wl, refused or s.bad, value

    def p(self, q, spec):
        if self._value is not None:
            return self._value(q, spec)
        return self.s.pv("%s_%s" % (q, self.s.key(spec)))

    def sig(self, q, spec):
        return bool(self.p(q, spec) < self.s.p)

    def bad(self, spec):
        return bool(self._bad(spec))


def forward(t, base, lag, sarsar, names):
    """the LM tree: (label, model) of lag vs error given a base (OLS or SLX) model."""
    e, l = t.sig("lm_error", base), t.sig("lm_lag", base)
    if not e and not l:
        return names["base"]
    if l != e:
        return names["lag"] if l else names["error"]
    re, rl = t.sig("rlm_error", base), t.sig("rlm_lag", base)
    if re != rl:
        return names["lagr"] if rl else names["errorr"]
    both = re and rl
    if both and not t.bad(lag) and t.sig("ak", lag):
        return names["sarsar"]
    more = bool(t.p("rlm_lag", base) <= t.p("rlm_error", base))
    if both:
        return names["lagbr"] if more else names["errorbr"]
    return names["lagnr"] if more else names["errornr"]


def stge_classic(t):
    L, E = LAG(t), ERR
    return forward(t, OLS, L, SARSAR(t), dict(
        base=("OLS", OLS), lag=("LAG", L), error=("ERROR", E), lagr=("LAGr", L), errorr=("ERRORr", E), sarsar=("SARSAR", SARSAR(t)),
        lagbr=("LAG_Br", L), errorbr=("ERROR_Br", E), lagnr=("LAG_Nr", L), errornr=("ERROR_Nr", E)))


def stge_kb(t):
    if not t.sig("lm_spdurbin", OLS):
        return "OLS", OLS
    x, y = t.sig("rlm_wx", OLS), t.sig("rlm_durlag", OLS)
    if x and y:
        return "SDM", SDM(t)
    if y:
        return "LAG", LAG(t)
    if x:
        return "SLX", SLX
    return "OLS", OLS


def stge_pre(t):
    slx = t.sig("lm_wx", OLS) and t.sig("rlm_wx", OLS)
    if slx:
        base, lag, err, sar = ("SLX", SLX), ("SDM", SDM(t)), ("SLX-ERR", SLXERR), ("GNS", GNS(t))
    else:
        base, lag, err, sar = ("OLS", OLS), ("LAG", LAG(t)), ("ERROR", ERR), ("SARSAR", SARSAR(t))
    return forward(t, base[1], lag[1], sar[1], dict(base=base, lag=lag, lagr=lag, lagbr=lag, lagnr=lag, error=err, errorr=err,
                                                    errorbr=err, errornr=err, sarsar=sar))


class Refused(Exception):
    pass


def params(t, spec):
    """significance of the spatial parameters of a model: (all, none, the group of the least significant one)"""
    if t.bad(spec):
        raise Refused()
    g = ["gamma%d" % i for i in range(t.s.k)] if spec[1] else []
    names = g + (["rho"] if spec[0] == "GM_Lag" or spec[0] == "GMM_Error" and spec[2] else []) + (["lambda"] if spec[0] == "GMM_Error" else [])
    sig = [t.sig(q, spec) for q in names]
    worst = names[0]
    for q in names[1:]:
        if bool(t.p(q, spec) > t.p(worst, spec)):
            worst = q
    return all(sig), not any(sig), worst.rstrip("0123456789")


def gets_gns(t):
    every, none, worst = params(t, GNS(t))
    if every:
        return "GNS", GNS(t)
    if none:
        return "OLS", OLS
    if worst == "lambda":
        every, none, worst = params(t, SDM(t))
        if every:
            return ("SDM", SDM(t)) if t.sig("cfh", SDM(t)) else ("ERROR", ERR)
        if none:
            return "OLS", OLS
        return ("SLX", SLX) if worst == "rho" else ("LAG", LAG(t))
    if worst == "rho":
        every, none, worst = params(t, SLXERR)
        if every:
            return "SLX-ERR", SLXERR
        if none:
            return "OLS", OLS
        return ("SLX", SLX) if worst == "lambda" else ("ERROR", ERR)
    every, none, worst = params(t, SARSAR(t))
    if every:
        return "SARSAR", SARSAR(t)
    if none:
        return "OLS", OLS
    return ("LAG", LAG(t)) if worst == "lambda" else ("ERROR", ERR)


def gets_sdm(t):
    every, none, worst = params(t, SDM(t))
    if every:
        if not t.sig("cfh", SDM(t)):
            return "ERROR", ERR
        return ("GNS", GNS(t)) if t.sig("ak", SDM(t)) else ("SDM", SDM(t))
    if none:
        return ("ERROR", ERR) if t.sig("lm_error", OLS) else ("OLS", OLS)
    if worst == "rho":
        return ("SLX-ERR", SLXERR) if t.sig("lm_error", SLX) else ("SLX", SLX)
    if t.bad(LAG(t)):
        raise Refused()
    return ("SARSAR", SARSAR(t)) if t.sig("ak", LAG(t)) else ("LAG", LAG(t))


RULES = dict(stge_classic=stge_classic, stge_kb=stge_kb, stge_pre=stge_pre, gets_gns=gets_gns, gets_sdm=gets_sdm)


def expected(t, fn):
    """(label or None, model or None): None when a model that the rule has to look at is refused"""
    try:
        label, spec = RULES[fn](t)
    except Refused:
        return None, None
    return label, spec


CASES = [dict(fn=f, k=k, named=nm) for f in RULES for k in ((1, 2) if f.startswith("gets") else (2,)) for nm in (True, False)]


@contract("C24", [S + f for f in RULES], cases=CASES, draws=25, timeout=300, maxpaths=2000,
          symcases=[q for q in CASES if (q["fn"], q["k"]) != ("gets_gns", 2)],
          note="the estimators and tests are replaced by their contracts (any p-values, any refusals)")
def rules(c, fn, k, named):
    """for all p-values of all tests, and all refusals of the estimators: the label and the model of the decision rule, estimated
    with the data, weights, instruments and names given."""
    n = c.dim("n", 8, 30)
    y, x = c.array("y", n, 1), c.array("x", n, k)
    w = c.weights("w", n, "row")
    if c.symbolic:
        p = c.scalar("level", 0.001, 0.5)
    else:
        p = zoo.pick(c, 0.01, 0.05, 0.1, 0.3)
    s = Script(c, k, p)
    wl = zoo.pick(c, 1, 2, 3) if not c.symbolic else 3
    kw = dict(name_w="wn", name_ds="ds", latex=True, w_lags=wl, p_value=p, mprint=True)
    if named:
        kw.update(name_y="Y", name_x=["X%d" % i for i in range(k)])
    out = io.StringIO()
    f = c.func(S + fn)
    with s.install(w):
        with contextlib.redirect_stdout(out):
            result, reg = f(y, x, w, **kw)
        made = list(s.calls)
        quiet = io.StringIO()
        with contextlib.redirect_stdout(quiet):
            short, nothing = f(y, x, w, **dict(kw, finmod=False, mprint=False))
    t = T(s, wl)
    label, spec = expected(t, fn)
    text = out.getvalue()
    if label is None:
        c.true("a refused model is reported", "exception" in result.lower() and reg is False)
        c.true("and without the final model too", "exception" in short.lower() and nothing is False)
    else:
        got, _, exc = result.partition(" -- Exception")
        c.true("the model of the decision rule", got.strip().lower() == label.lower())
        c.true("the same label without the final model", short.strip().lower() == label.lower() and nothing is False)
        if spec[0] != "OLS" and t.bad(spec):
            c.true("a refused final model is reported", exc != "" and reg is False)
        else:
            c.true("no exception reported", exc == "" and reg is not False)
            c.true("the model returned is the one selected", reg.spec == spec)
            c.true("its summary is printed", result in text and reg.summary in text)
            c.true("nothing is printed unless asked for", quiet.getvalue() == "")
    for o in made:
        a = o.args
        c.true("estimated with the data given", a["y"] is y and a["x"] is x and a["w"] is w)
        c.true("no other regressors", all(a.get(q) is None for q in ("yend", "q", "regimes")))
        c.true("out-of-bounds parameters are refused", o.fam == "OLS" or a["hard_bound"] is True)
        c.true("the names of the data set", a["name_w"] == "wn" and a["name_ds"] == "ds" and a["latex"] is True)
        if named:
            c.true("the names given", a["name_y"] == "Y" and list(a["name_x"]) == ["X%d" % i for i in range(k)])
    if not named and reg is not False and made[-1] is reg and len(made) > 1:
        c.true("default names are those of the first model", reg.args["name_y"] == "dep_var" and list(reg.args["name_x"]) == ["var_%d" % (i + 1) for i in range(k)])
    if reg is not False and reg.fam == "OLS":
        c.true("the linear model carries the spatial diagnostics", bool(reg.args["spat_diag"]))
    c.true("the residual autocorrelation test of a model with lagged y", all(q == "gen" for q in s.cases))
    c.frame("data unchanged", y, x)


# ---------------------------------------------------------------- with the real estimators
def observe(c, d, y, x, w, wl):
    """p-values of the real tests and models, and the refusals."""
    import spreg
    made = {}

    def model(spec):
        if spec not in made:
            kw = dict(w=w, slx_lags=spec[1])
            try:
                with zoo.quiet():
                    if spec[0] == "OLS":
                        made[spec] = spreg.OLS(y, x, spat_diag=True, **kw)
                    elif spec[0] == "GM_Lag":
                        made[spec] = spreg.GM_Lag(y, x, w_lags=spec[2], hard_bound=True, **kw)
                    else:
                        if spec[2]:
                            kw["w_lags"] = spec[3]
                        made[spec] = spreg.GMM_Error(y, x, add_wy=spec[2], hard_bound=True, **kw)
            except np.linalg.LinAlgError:
                raise Reject()                   # collinear lags (complete graphs): no statistics
            except Exception as e:
                made[spec] = e
        return made[spec]

    def value(q, spec):
        m = model(spec)
        if q == "ak":
            return float(np.ravel(spreg.AKtest(m, w, case="gen").p)[0])
        if q == "cfh":
            k = x.shape[1]
            b = np.asarray(m.betas)
            rho, be, ga = b[-1, 0], b[1:k + 1, 0], b[k + 1:2 * k + 1, 0]
            J = np.hstack([rho * np.eye(k), np.eye(k), be[:, None]])
            g = ga + rho * be
            wald = g @ np.linalg.solve(J @ m.vm[1:, 1:] @ J.T, g)
            from scipy.stats import chi2
            return float(chi2.sf(wald, k))
        if spec[0] == "OLS":
            return float(getattr(m, q)[1])
        k = x.shape[1]
        names = ["const"] + ["x"] * k + ["gamma%d" % i for i in range(k * spec[1])]
        names += ["rho"] * (spec[0] == "GM_Lag" or spec[0] == "GMM_Error" and spec[2]) + ["lambda"] * (spec[0] == "GMM_Error")
        i = names.index(q)
        z = float(m.betas[i, 0]) / float(np.sqrt(m.vm[i, i]))
        from scipy.stats import norm
        return 2 * float(norm.sf(abs(z)))
    return model, value


@contract("C24", [S + f for f in RULES], cases=[dict(fn=f) for f in RULES], sym=False, draws=12, timeout=120,
          bounded="random data of seven spatial processes, n up to 100, several significance levels")
def searched(c, fn):
    """with the real estimators: the label of the rule applied to the real test statistics, and the estimates of that model."""
    from ..engine import make_weights
    n = int(c.rng.randint(40, 100))
    w = make_weights(c.rng, n, "row")
    W = w.sparse.toarray()
    k = int(c.rng.randint(1, 3))
    x = c.rng.randn(n, k) * 2 + 1
    rho, lam, gam = [float(v) if f else 0.0 for v, f in zip((c.rng.uniform(0.2, 0.7), c.rng.uniform(0.3, 0.8), c.rng.uniform(0.5, 2)),
                                                             [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0)][c.rng.randint(7)])]
    e = np.linalg.solve(np.eye(n) - lam * W, c.rng.randn(n, 1) * float(c.rng.choice([0.5, 2, 5])))
    y = np.linalg.solve(np.eye(n) - rho * W, 1 + x.sum(1, keepdims=True) + gam * (W @ x).sum(1, keepdims=True) + e)
    for name, v in (("y", y), ("x", x)):
        c.inputs[name], c.copies[name] = v, v.copy()
    level, wl = float(zoo.pick(c, 0.01, 0.05, 0.1, 0.2, 0.5)), int(zoo.pick(c, 1, 2, 3))
    model, value = observe(c, None, y, x, w, wl)

    class St:
        pass
    s = St()
    s.k, s.p = k, level
    t = T(s, wl, refused=lambda spec: isinstance(model(spec), Exception), value=value)
    label, spec = expected(t, fn)
    with zoo.quiet():
        result, reg = c.func(S + fn)(y, x, w, w_lags=wl, p_value=level, mprint=False)
    if label is None:
        c.true("a refused model is reported", "exception" in result.lower() and reg is False)
        return
    got, _, exc = result.partition(" -- Exception")
    c.true("the model of the decision rule", got.strip().lower() == label.lower())
    m = model(spec)
    if isinstance(m, Exception):
        c.true("a refused final model is reported", exc != "" and reg is False)
        return
    c.true("the model returned is the one selected", exc == "" and type(reg).__name__ == type(m).__name__)
    c.eq("its coefficients", np.asarray(reg.betas, float), np.asarray(m.betas, float))
    c.eq("its variance", np.asarray(reg.vm, float), np.asarray(m.vm, float))
    c.true("its names", len(reg.name_x) == len(m.name_x))
    c.frame_all("data unchanged")


@contract("C24", [S + f for f in RULES], cases=[dict(fn=f) for f in RULES], sym=False, draws=2,
          bounded="one configuration of the documented options robust and sig2n_k")
def options(c, fn):
    """the documented estimation options reach the model returned."""
    n = c.dim("n", 8, 30)
    y, x = c.array("y", n, 1), c.array("x", n, 2)
    w = c.weights("w", n, "row")
    s = Script(c, 2, 0.05)
    s.bad = lambda spec: False
    s.pv = lambda name: 0.001 if any(q in name for q in ("lm_lag", "rlm_durlag", "lm_spdurbin", "rho", "gamma", "cfh")) else 0.7
    with s.install(w), contextlib.redirect_stdout(io.StringIO()):
        result, reg = c.func(S + fn)(y, x, w, robust="white", sig2n_k=False, mprint=False)
    c.true("a model is selected", reg is not False)
    for o in s.calls:
        if o.fam == "OLS":
            c.true("robust and sig2n_k reach the estimators", o.args["robust"] == "white" and not o.args["sig2n_k"])
        if o.fam == "GM_Lag":
            c.true("robust and sig2n_k reach the estimators", o.args["robust"] == "white" and not o.args["sig2n_k"])
