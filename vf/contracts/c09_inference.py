"""C09: standard errors, statistics and p-values follow from betas and vm; the published table is aligned."""
import re

import numpy as np

from ..engine import contract
from . import common as K
from . import zoo

ELL = [dict(k=k, extra=e) for k in (1, 2, 3, 4) for e in (0, 1)]


class _R:
    pass


@contract("C09", ["diagnostics:se_betas"], draws=8)
def se_betas(c):
    """std errors = sqrt of the covariance diagonal, for any number of coefficients."""
    k = c.dim("k", 1, 7)
    r = _R()
    a = c.array("V", k, k, style="plain") if not c.symbolic else c.array("V", k, k)
    r.vm = a if c.symbolic else a @ a.T + np.eye(k)
    if not c.symbolic:
        a = r.vm
    s = c.func("diagnostics:se_betas")(r)
    c.eq("std_err = sqrt(diag vm)", s, c.np.sqrt(r.vm.diagonal()))
    c.frame("inputs unchanged", r.vm)


@contract("C09", ["diagnostics:t_stat"], cases=[dict(z=z, **e) for z in (True, False) for e in ELL], draws=4, bounded=None)
def t_stat(c, z, k, extra):
    """t_stat: coefficient over standard error with two-sided tail probabilities, for k coefficients (+ nuisance without variance)."""
    r = _R()
    r.n, r.k = c.dim("n", 8, 60), k
    r.betas = c.array("b", k + extra, 1)
    V = c.array("V", k, k, symmetric=True)
    if not c.symbolic:
        V = V @ V.T + 0.1 * np.eye(k)
    r.vm = V
    kw = dict(z_stat=True) if z else {}
    out = c.func("diagnostics:t_stat")(r, **kw)
    c.true("one entry per variance", len(out) == k)
    for i in range(k):
        t = r.betas[i, 0] / c.np.sqrt(V[i, i])
        c.eq("statistic %d" % i, out[i][0], t)
        sf = c.stats.norm.sf(abs(t)) if z else c.stats.t.sf(abs(t), r.n - k)
        c.eq("p-value %d" % i, out[i][1], 2 * sf)
    c.frame("inputs unchanged", r.betas, V)


@contract("C09", ["diagnostics_sur:sur_setp"], cases=[dict(ks=ks) for ks in ([1], [2], [2, 2], [1, 3], [2, 1, 2])], draws=3,
          note="enumerated system sizes, every value")
def sur_setp(c, ks):
    """per-equation inference of systems: block diagonal of the joint covariance, in equation order."""
    K_ = sum(ks)
    V = c.array("V", K_, K_, style="plain")
    if not c.symbolic:
        V = V @ V.T + 0.2 * np.eye(K_)
    b = {i: c.array("b%d" % i, k, 1) for i, k in enumerate(ks)}
    out = c.func("diagnostics_sur:sur_setp")(b, V)
    s = 0
    for i, k in enumerate(ks):
        for j in range(k):
            se = c.np.sqrt(V[s + j, s + j])
            z = b[i][j, 0] / se
            c.eq("eq %d std_err" % i, out[i][j, 0], se)
            c.eq("eq %d statistic" % i, out[i][j, 1], z)
            c.eq("eq %d p-value" % i, out[i][j, 2], 2 * c.stats.norm.sf(abs(z)))
        s += k


def unit_checks(c, m, fam, tag, has_table=True):
    """std_err / statistics / p-values of one estimated equation."""
    b, vm = np.asarray(m.betas, float).reshape(-1), np.asarray(m.vm, float)
    k = vm.shape[0]
    c.eq(tag + "std_err", m.std_err, np.sqrt(np.diag(vm)))
    z = b[:k] / np.sqrt(np.diag(vm))
    st = m.t_stat if fam == "t" else m.z_stat
    c.true(tag + "one statistic per variance", len(st) == k)
    c.eq(tag + "statistic", [float(s[0]) for s in st], z)
    p = 2 * (c.stats.t.sf(np.abs(z), m.n - m.k) if fam == "t" else c.stats.norm.sf(np.abs(z)))
    c.eq(tag + "p-value", [float(s[1]) for s in st], p)
    return b, np.sqrt(np.diag(vm)), z, p


def names_of(m, b):
    for a in ("name_z", "name_x"):
        n = getattr(m, a, None)
        if n is not None and len(n) == len(b):
            return list(n)
    return None


def table_checks(c, o, units, fam):
    """o.output and the printed table list every coefficient once, with its own numbers."""
    rows = []
    for tag, m in units:
        b, se, z, p = unit_checks(c, m, fam, tag)
        nm = names_of(m, b)
        c.true(tag + "names for every coefficient", nm is not None, (getattr(m, "name_z", None), getattr(m, "name_x", None), len(b)))
        rows += [(nm[i], b[i], se[i] if i < len(se) else None, z[i] if i < len(z) else None, p[i] if i < len(p) else None) for i in range(len(b))]
    t = o.output
    c.same("table lists each variable once", sorted(t["var_names"]), sorted(r[0] for r in rows))
    c.true("variable names are unique", len(set(t["var_names"])) == len(t), list(t["var_names"]))
    by = {r[0]: r for r in rows}
    lines = o.summary.splitlines()
    for rec in t.to_dict("records"):
        r = by[rec["var_names"]]
        c.eq("coefficient of its own row", float(rec["coefficients"]), r[1])
        if r[2] is None:
            line = "%20s    %12.5f    " % (r[0], r[1])
            c.true("no inference without variance", rec["std_err"] is None or rec["std_err"] != rec["std_err"])
        else:
            c.eq("std_err of its own row", float(rec["std_err"]), r[2])
            c.eq("statistic of its own row", float(rec["zt_stat"]), r[3])
            c.eq("p-value of its own row", float(rec["prob"]), r[4])
            line = "%20s    %12.5f    %12.5f    %12.5f    %12.5f" % r
        c.true("printed once", sum(1 for l in lines if l.rstrip() == line.rstrip() or (l[:20] == line[:20] and num_close(l, line))) == 1,
               (line, [l for l in lines if r[0] in l][:4]))


def chow_table(c, o, R):
    """the printed and tabulated Chow tests: one row per coefficient that varies across regimes, under its own name, and the global test."""
    from .c12_regimes import names_of as all_names
    labels = [str(r) for r in sorted(set(R))]
    per = []
    for v in all_names(o):
        if v.startswith("_Global_") or v in ("lambda", "rho"):
            continue
        nme = "lambda" if v.endswith("lambda") else v.split("_", 1)[1]
        if nme not in per:
            per.append(nme)
    c.true("Chow table exists", hasattr(o, "output_chow") and "CHOW TEST" in o.summary)
    t = o.output_chow
    c.same("Chow table rows", list(t["var_names"]), per + ["Global test"])
    regi = np.asarray(o.chow.regi, float)
    if per[-1] == "lambda" and len(o.vm) < len(o.betas):      # lambda has no variance in this model, hence no test
        regi = np.vstack([regi, [[np.nan, np.nan]]])
    want = np.vstack([regi, np.asarray(o.chow.joint, float)[None]])
    c.same("one Chow test per row", len(want), len(t))
    ok = ~np.isnan(want[:, 0])
    c.same("rows without a test have no numbers", list(np.isnan(np.asarray(t["value"], float))), list(~ok))
    c.eq("Chow statistics of their own rows", np.asarray(t["value"], float)[ok], want[ok, 0])
    c.eq("Chow p-values of their own rows", np.asarray(t["prob"], float)[ok], want[ok, 1], scale=1)
    df = [len(labels) - 1] * len(per) + [(int(ok.sum()) - 1) * (len(labels) - 1)]
    c.same("Chow degrees of freedom", [int(v) for v in t["df"]], df)
    lines = o.summary.splitlines()
    for nme, d, r in zip(list(t["var_names"]), df, want):
        line = "%20s             %2d   %12.3f        %9.4f" % (nme, d, r[0], r[1])
        c.true("Chow row printed once", lines.count(line) == 1, (line, [l for l in lines if l[:20] == line[:20]]))


def num_close(a, b):
    """same printed numbers up to one unit in the last printed digit."""
    try:
        x, y = [float(v) for v in a[20:].split()], [float(v) for v in b[20:].split()]
    except ValueError:
        return False
    return len(x) == len(y) and all(abs(p - q) < 1.5e-5 * max(1, abs(q) * 1e-3) for p, q in zip(x, y))


@contract("C09", ["output:output", "output:out_part_top", "output:out_part_middle", "output:out_part_end", "diagnostics:t_stat", "diagnostics:se_betas"],
          cases=[dict(kind=k) for k in zoo.CROSS], sym=False, draws=6, bounded="random data n<=60, random options per estimator")
def cross_section(c, kind):
    o, info = zoo.make_cross(c, kind, pandas=zoo.flip(c, 0.3))
    table_checks(c, o, [("", o)], info.fam)


@contract("C09", ["output:output", "output:out_part_middle", "regimes:_get_weighted_var"],
          cases=[dict(kind=k) for k in zoo.REGIMES], sym=False, draws=6, bounded="random data n<=80, 2-3 regimes, random options per estimator")
def regimes(c, kind):
    o, info = zoo.make_cross(c, kind)
    mu = getattr(o, "multi", None)
    units = [("%s: " % r, mu[r]) for r in mu] if mu else [("", o)]
    table_checks(c, o, units, info.fam)
    chow_table(c, o, info.kw["regimes"])


@contract("C09", ["output:output", "output:out_part_middle", "twosls_regimes:TSLS_Regimes._tsls_regimes_multi"],
          cases=[dict(kind=k) for k in zoo.REGIMES], sym=False, draws=1, bounded="random data n in 100..120, 3 regimes, 5-6 regressors: tables of 18 to 45 rows")
def wide_tables(c, kind):
    """tables with many rows keep every coefficient in the row of its own variable."""
    kind, d, kw = zoo.cross_args(c, kind, n=c.dim("n", 100, 120), k=zoo.pick(c, 5, 6), nr=3)
    kw.update(vm=False, slx_lags=0, cols2regi="all", constant_regi="many")
    if "regime_err_sep" in kw or not kind.startswith("ML_Lag"):
        kw["regime_err_sep"] = True
    try:
        o = zoo.build(c, kind, kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    mu = getattr(o, "multi", None)
    units = [("%s: " % r, mu[r]) for r in mu] if mu else [("", o)]
    table_checks(c, o, units, "t" if "OLS" in kind else "z")
    chow_table(c, o, kw["regimes"])


@contract("C09", ["summary_output:SUR", "summary_output:summary_coefs_sur", "diagnostics_sur:sur_setp", "sur_error:SURerrorML.__init__"],
          cases=[dict(kind=k) for k in zoo.SYSTEMS], sym=False, draws=4, bounded="random systems of 2-3 equations")
def systems(c, kind):
    o, info = zoo.make_system(c, kind)
    B = o.bSUR if hasattr(o, "bSUR") else o.b3SLS
    inf = o.sur_inf if hasattr(o, "sur_inf") else o.tsls_inf
    V = np.asarray(o.varb)
    s = 0
    lines = o.summary.splitlines()
    for r in range(info.d.G):
        b = np.asarray(B[r]).ravel()
        se = np.sqrt(np.diag(V)[s:s + len(b)])
        s += len(b)
        z = b / se
        T = np.column_stack([se, z, 2 * c.stats.norm.sf(np.abs(z))])
        c.eq("inference of equation %d" % r, inf[r], T)
        nm = list(o.name_bigX[r]) + (list(o.name_bigyend[r]) if kind in ("ThreeSLS", "SURlagIV") else [])
        c.true("a name for every coefficient", len(nm) == len(b), (nm, len(b)))
        for i in range(len(b)):
            hit = [l for l in lines if l[:20].strip() == nm[i] and close7(l, [b[i]] + list(T[i]))]
            c.true("row of its own variable", len(hit) == 1, (nm[i], b[i], [l for l in lines if nm[i] in l]))
    c.true("covariance covers all coefficients", s == V.shape[0])


def close7(l, vals):
    try:
        x = [float(v) for v in l[20:].split()]
    except ValueError:
        return False
    return len(x) == len(vals) and all(abs(p - q) < 2e-7 * max(1, abs(q)) for p, q in zip(x, vals))


@contract("C09", ["summary_output:summary_coefs_allx", "panel_fe:Panel_FE_Lag.__init__", "panel_re:Panel_RE_Lag.__init__", "sp_panels:GM_KKP.__init__"],
          cases=[dict(kind=k) for k in zoo.PANELS], sym=False, draws=3, bounded="random balanced panels")
def panels(c, kind):
    o, info = zoo.make_panel(c, kind)
    b, se, z, p = unit_checks(c, o, "z", "")
    nm = list(o.name_x)
    c.true("a name for every coefficient", len(nm) >= len(se), (nm, len(b)))
    lines = o.summary.splitlines()
    for i in range(len(se)):
        hit = [l for l in lines if l[:20].strip() == nm[i] and num_close(l, "%20s    %12.5f    %12.5f    %12.5f    %12.5f" % (nm[i], b[i], se[i], z[i], p[i]))]
        c.true("row of its own variable", len(hit) == 1, (nm[i], b[i], [l for l in lines if nm[i] in l]))


@contract("C09", ["regimes:check_const_regi", "output:output"], cases=[dict(kind=k) for k in zoo.REGIMES], sym=False, draws=1,
          bounded="random data n<=80, 2-3 regimes, 1-3 regressors constant within a regime at random places")
def removed_regressors(c, kind):
    """separate regimes with regressors that do not vary within a regime: every remaining coefficient keeps its own name, in the tables and in the lists."""
    from .c12_regimes import with_constant_columns, fit, names_of
    d, kw, kw2 = with_constant_columns(c, kind)
    try:
        a = fit(kind, kw)
    except Exception as e:
        c.assume("will not converge" not in str(e))
        raise
    b = fit(kind, kw2)
    table_checks(c, b, [("%s: " % r, b.multi[r]) for r in b.multi], "t" if "OLS" in kind else "z")
    chow_table(c, b, kw2["regimes"])
    va, vb = dict(zip(names_of(a), np.asarray(a.betas)[:, 0])), dict(zip(names_of(b), np.asarray(b.betas)[:, 0]))
    c.same("the remaining names", sorted(vb), sorted(va))
    for v in va:
        c.eq("coefficient of " + v, vb[v], va[v], scale=1.0, tol=1e-5)
    c.same("names of the varying coefficients", list(b.name_x_r), list(a.name_x_r))
    for r in a.multi:
        for t in ("name_x", "name_z", "name_yend"):
            c.same("%s of every regime" % t, getattr(b.multi[r], t, None), getattr(a.multi[r], t, None))
        for t in ("name_q", "name_h"):
            if hasattr(a.multi[r], t):
                c.same("instruments after a regressor is left out: %s" % t, getattr(b.multi[r], t), getattr(a.multi[r], t))


LATEX = [k for k in zoo.CROSS + zoo.REGIMES] + zoo.PANELS_NEW


@contract("C09", ["output:out_part_middle", "output:_summary_vm"], cases=[dict(kind=k) for k in LATEX], sym=False, draws=2, bounded="random data n<=80")
def latex_and_covariance(c, kind):
    """the table set in LaTeX has the rows of the table; the printed covariance is the covariance."""
    name, d, kw = (zoo.panel_args if kind in zoo.PANELS_NEW else zoo.cross_args)(c, kind)
    kw.update(vm=True, latex=True)
    o = zoo.build(c, name, kw)
    t = o.output.sort_index()
    want = []
    for r in t.itertuples():
        want.append([r.var_names.strip().replace("_", r"\_").replace("%", r"\%")] + ["%.5f" % (np.nan if v is None else v) for v in (r.coefficients, r.std_err, r.zt_stat, r.prob)])
    got = [[f.strip() for f in l.replace(r"\\", "").split("&")] for l in o.summary.split("\n") if l.count("&") == 4]
    head = [r for r in got if r[0] == "Variable"]
    got = [r for r in got if r[0] != "Variable"]
    c.same("one LaTeX table per equation", len(head), len(getattr(o, "multi", [0])))
    c.same("rows of the LaTeX tables", sorted(got), sorted(want))
    T = o.summary.partition("COEFFICIENTS VARIANCE MATRIX")[2].strip().split("\n")[2:]
    rows = [[float(v) for v in re.findall(r"-?\d+\.\d{6}|nan", l)] for l in T if "====" not in l and l.strip()]
    V = np.asarray(o.vm)
    c.same("printed covariance: size", [len(r) for r in rows], [V.shape[1]] * V.shape[0])
    c.true("printed covariance", bool(np.allclose(rows, V, rtol=1e-9, atol=6e-7, equal_nan=True)))
    nm = list(t["var_names"])[:V.shape[1]]
    if max(map(len, nm)) < 12:
        c.same("printed covariance: names", o.summary.partition("COEFFICIENTS VARIANCE MATRIX")[2].strip().split("\n")[1].split()[:V.shape[1]], nm)
