"""Hypothesis tests: textbook statistics and p values."""
import ctypes as C
import itertools
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD
from models import MODELS, INF
import props.C20 as C20

R3 = lambda x: round(x, 3)
RULE = ("t: two samples of 2 to 12 numbers, whole vectors and columns of matrices. f: least squares fits of 2 to 4 coefficients, every kind of contrast, given whole, in part or not at all. table: 1 to 4 rows and columns of counts or shares. anova: tables in the database with missing values, one grouping, and two with equal cells. "
        "fisher: tables with up to 24 entries, against enumeration. fit: goodness of fit of weighted and plain lists. ks: one- and two-sample Kolmogorov-Smirnov tests with ties. ks_many: the same with up to 1,600 observations. Non-trivial: a finite statistic. Distinct by the whole case.")
ASSUMPTIONS = ["the t statistic divides by the square root of the sum of the two sample variances over their counts, with the counts less two as degrees of freedom, as the code documents by its df row", "the F statistic uses the number of rows less the number of contrasts, which the library's own test requires (see the known finding)",
               "two-way analyses of variance are compared where all cells have the same number of observations", "p values of Kolmogorov-Smirnov tests are compared for unweighted data"]


def table(p):
    """rows by name"""
    d = dump(p)
    v = d["v"] if d["v"] is not None else [r[0] for r in d["m"]]
    return dict(zip(d["n"]["r"], v))


def pv(a, b, what, t=1e-9):
    near(a, b, what, 1e-7, t)


# ------------------------------------------------------------ t
@st.composite
def t_c(draw):
    el = st.one_of(st.floats(-20, 20).map(R3), st.integers(-3, 3).map(float), st.floats(1000, 1010).map(R3))
    pair = draw(st.booleans())
    n = draw(st.integers(2, 12))
    k = n if pair or draw(st.booleans()) else draw(st.integers(2, 12))
    a = [draw(el) for _ in range(n)]
    b = [draw(el) for _ in range(k)]
    if draw(st.integers(0, 5)) == 0:
        b = [x + 1 for x in a] if pair else [a[0]] * k
    return {"a": a, "b": b, "pair": pair, "cols": draw(st.booleans()), "i": draw(st.permutations([0, 1, 2]))}


def run_t(c):
    a, b = np.array(c["a"]), np.array(c["b"])

    def call(x, y):
        if c["cols"] and len(x) == len(y):
            i, j, k = c["i"]
            m = [[0.0] * 3 for _ in x]
            for r, u, v in zip(m, x, y):
                r[i], r[j], r[k] = u, v, 77.0
            d = mk({"m": m})
            o = L.ppiii_sh_ttest_cols(d, i, j, int(c["pair"]))
            eq(dump(d)["m"], m, "data")
        else:
            d = mk({"v": list(x)})
            e = mk({"v": list(y)})
            o = L.pppi_sh_ttest(L.pp_sh_vector_of(d), L.pp_sh_vector_of(e), int(c["pair"]))
            eq(dump(d)["v"], list(x), "first sample")
            eq(dump(e)["v"], list(y), "second sample")
        return table(o)
    t = call(c["a"], c["b"])
    if c["pair"]:
        d = a - b
        df, se = len(a) - 1, math.sqrt(d.var(ddof=1) / len(a))
        diff = d.mean()
    else:
        df, se = len(a) + len(b) - 2, math.sqrt(a.var(ddof=1) / len(a) + b.var(ddof=1) / len(b))
        diff = a.mean() - b.mean()
    what = "%st test of %s and %s: " % ("paired " if c["pair"] else "", c["a"], c["b"])
    scale = max(1, np.abs(a).max(), np.abs(b).max())
    near(t["mean left - right"], diff, what + "difference", 1e-9, 1e-9 * scale)
    near(t["df"], df, what + "df", 0)
    if se < 1e-7 * scale:
        return ["flat"]
    stat = diff / se
    near(t["t statistic"], stat, what + "statistic", 1e-6, 1e-6)
    one = stats.t.sf(abs(stat), df)
    pv(t["p value, 1 tail"], one, what + "one-tailed p", 1e-6)
    pv(t["p value, 2 tail"], 2 * one, what + "two-tailed p", 1e-6)
    for k in "12":
        near(t["confidence, %s tail" % k] + t["p value, %s tail" % k], 1, what + "confidence and p", 1e-12)
    s = call(c["b"], c["a"])
    for k in s:
        near(s[k], -t[k] if k in ("mean left - right", "t statistic") else t[k], what + "%s with samples exchanged" % k, 1e-8, 1e-8 * scale)
    return ["paired" if c["pair"] else "two samples", "nt"]


# ------------------------------------------------------------ F
@st.composite
def f_c(draw):
    k = draw(st.integers(2, 4))
    n = draw(st.integers(k + 3, 14))
    X = [[draw(st.floats(-5, 5).map(R3)) for _ in range(k - 1)] for _ in range(n)]
    y = [draw(st.floats(-9, 9).map(R3)) for _ in range(n)]
    q = draw(st.integers(1, k))
    Q = [[draw(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.0])) for _ in range(k)] for _ in range(q)]
    return {"X": X, "y": y, "Q": Q, "c": [draw(st.sampled_from([0.0, 0.0, 1.0, -2.0])) for _ in Q], "how": draw(st.sampled_from(["all", "all", "novec", "nothing", "empty", "vec", "wrong"])), "again": draw(st.booleans())}


def fit(c):
    d = mk({"m": [[y] + r for y, r in zip(c["y"], c["X"])]})
    return L.ppp_apop_estimate(d, var("apop_ols"))


def run_f(c, dfrule=None):
    X = np.column_stack([np.ones(len(c["y"])), np.array(c["X"])])
    y = np.array(c["y"])
    n, k = X.shape
    if np.linalg.cond(X) > 1e4:
        return ["collinear"]
    m = fit(c)
    Q, r = c["Q"], c["c"]
    if c["how"] in ("nothing", "empty", "vec"):
        Q = [[float(j == i) for j in range(k)] for i in range(1, k)]
        r = (r * k)[:k - 1] if c["how"] == "vec" else [0.0] * (k - 1)
    if c["how"] == "novec":
        r = [0.0] * len(Q)
    spec = {"all": {"v": r, "m": Q}, "novec": {"m": Q}, "nothing": None, "empty": {}, "vec": {"v": r}, "wrong": {"v": r + [1.0], "m": Q}}[c["how"]]
    Qa = np.array(Q)
    sing = np.linalg.matrix_rank(Qa) < len(Q) or np.linalg.cond(Qa) > 1e4
    con = mk(spec) if spec is not None else None
    before = dump(con) if con else None
    data, par = dump(L.pp_sh_mdata(m)), dump(L.pp_sh_params(m))
    o = L.ppp_sh_ftest(m, con)
    if c["how"] == "wrong":
        eq(L.ip_sh_error(o), ord("d"), "error mark for contrasts of two sizes")
        return ["wrong"]
    if sing:
        return ["repeated contrasts"]
    check(o and not L.ip_sh_error(o), "error")
    t = table(o)
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    e = y - X @ b
    sse = float(e @ e)
    w = Qa @ b - np.array(r)
    q = len(Q)
    df2 = n - k if dfrule else n - q
    F = float(w @ np.linalg.solve(Qa @ np.linalg.inv(X.T @ X) @ Qa.T, w)) * df2 / (q * sse)
    what = "F test of %s b = %s, %s rows: " % (Q, r, n)
    eq([t["df1"], t["df2"]], [q, df2], what + "df")
    if sse < 1e-6:
        return ["exact fit"]
    near(t["F statistic"], F, what + "statistic", 1e-6, 1e-8)
    pv(t["p value"], float(stats.f.sf(F, q, df2)), what + "p")
    near(t["confidence"], 1 - t["p value"], what + "confidence", 1e-12)
    eq(dump(L.pp_sh_mdata(m)), data, "the model's data")
    eq(dump(L.pp_sh_params(m)), par, "the model's parameters")
    if con:
        eq(dump(con), before, "the contrasts")
        if c["again"]:
            eq(table(L.ppp_sh_ftest(m, con)), t, "the same test again")
        L.vp_sh_data_free(con)
    return [c["how"], "nt"]


FDF = {"X": [[1.0], [2.0], [4.0], [7.0], [9.0]], "y": [1.0, 3.0, 2.0, 5.0, 4.0], "Q": [[0.0, 1.0]], "c": [0.0], "how": "all", "again": False}


# ------------------------------------------------------------ tables
@st.composite
def chi_c(draw):
    r, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    el = draw(st.sampled_from([st.integers(0, 9).map(float), st.floats(.01, 30).map(R3), st.integers(1, 200).map(float)]))
    return {"t": [[draw(el) for _ in range(k)] for _ in range(r)], "share": draw(st.booleans()), "pr": draw(st.permutations(range(r))), "pc": draw(st.permutations(range(k)))}


def run_chi(c):
    a = np.array(c["t"])
    if a.sum() == 0:
        return ["empty"]
    if c["share"]:
        a = a / a.sum()
    r, k = a.shape
    go = lambda x: L.pp_sh_chi(mk({"m": [[float(v) for v in row] for row in x]}))
    d = mk({"m": a.tolist()})
    o = L.pp_sh_chi(d)
    eq(dump(d)["m"], a.tolist(), "table")
    if r * k == 1:
        check(not o, "a result for a single cell")
        return ["degenerate"]
    check(o, "no result")
    t = table(o)
    if min(r, k) == 1:
        want, df = float(((a - a.mean()) ** 2 / a.mean()).sum()), r * k - 1
    else:
        df = (r - 1) * (k - 1)
        E = a.sum(1, keepdims=True) @ a.sum(0, keepdims=True) / a.sum()
        if (E == 0).any():
            return ["empty row or column"]
        want = float(((a - E) ** 2 / E).sum())
    what = "chi squared test of %s: " % a.tolist()
    near(t["df"], df, what + "df", 0)
    near(t["chi squared statistic"], want, what + "statistic", 1e-8, 1e-10)
    pv(t["p value"], float(stats.chi2.sf(want, df)), what + "p")
    for b, n in ((a.T, "transposed"), (a[c["pr"]][:, c["pc"]], "rearranged")):
        u = table(go(b))
        near([u["chi squared statistic"], u["df"], u["p value"]], [t["chi squared statistic"], t["df"], t["p value"]], what + n, 1e-8, 1e-10)
    return ["list" if min(r, k) == 1 else "table", "nt"]


# ------------------------------------------------------------ analysis of variance
@st.composite
def an_c(draw):
    two = draw(st.booleans())
    el = st.one_of(st.floats(-9, 30).map(R3), st.integers(0, 5).map(float))
    if two:
        A, B, n = draw(st.integers(2, 3)), draw(st.integers(2, 4)), draw(st.integers(1, 3))
        rows = [[draw(el), "a%i" % i, "b%i" % j] for i in range(A) for j in range(B) for _ in range(n)]
    else:
        A = draw(st.integers(1, 5))
        rows = [[draw(el), "a%i" % draw(st.integers(0, A - 1)), "b"] for _ in range(draw(st.integers(1, 14)))]
        if draw(st.booleans()):
            rows.append([None, draw(st.sampled_from(["a0", "zz"])), "b"])
    return {"two": two, "rows": draw(st.permutations(rows)), "sub": draw(st.booleans()), "num": draw(st.booleans())}


def run_an(c):
    L.i_sh_db_close()
    L.is_sh_db_open(None)
    L.is_sh_query("create table t(y, g, h)")
    lit = lambda v: "NULL" if v is None else repr(v) if isinstance(v, float) else "'%s'" % v
    for r in c["rows"]:
        if c["num"]:
            r = [r[0], float(ord(r[1][-1])), r[2]]
        L.is_sh_query("insert into t values(%s)" % ", ".join(lit(v) for v in r))
    tab = "(select * from t)" if c["sub"] else "t"
    o = L.pssss_sh_anova(tab, "y", "g", "h" if c["two"] else None)
    check(o and not L.ip_sh_error(o), "error")
    d = dump(o)
    eq([x for x in d["n"]["c"]], ["sum of squares", "df", "mean squares", "F ratio", "p value", "confidence"], "columns")
    y = np.array([r[0] for r in c["rows"] if r[0] is not None])
    g = np.array([r[1] for r in c["rows"] if r[0] is not None])
    h = np.array([r[2] for r in c["rows"] if r[0] is not None])
    gh = np.array([a + b for a, b in zip(g, h)])
    ss = lambda k: sum(float(((y[k == v].mean() - y.mean()) ** 2) * (k == v).sum()) for v in np.unique(k))
    df = lambda k: len(np.unique(k)) - 1
    tot = float(((y - y.mean()) ** 2).sum())
    N = len(y)
    if c["two"]:
        eq(d["n"]["r"], ["g", "h", "interaction", "residual", "total"], "rows")
        S = [ss(g), ss(h), ss(gh) - ss(g) - ss(h), tot - ss(gh), tot]
        D = [df(g), df(h), df(gh) - df(g) - df(h), N - 1 - df(gh), N - 1]
    else:
        eq(d["n"]["r"], ["g", "residual", "total"], "rows")
        S = [ss(g), tot - ss(g), tot]
        D = [df(g), N - 1 - df(g), N - 1]
    m = d["m"]
    what = "analysis of variance of %s: " % c["rows"]
    near([r[0] for r in m], S, what + "sums of squares", 1e-8, 1e-8 * (1 + tot + N * y.mean() ** 2))
    near([r[1] for r in m], D, what + "df", 1e-12)
    nt = False
    R = len(S) - 2
    if S[R] > 1e-6 * (1 + tot + N * y.mean() ** 2):
        for i in range(R):
            if D[i] > 0 and D[R] > 0:
                nt = True
                F = S[i] / D[i] / (S[R] / D[R])
                near([m[i][2], m[R][2]], [S[i] / D[i], S[R] / D[R]], what + "mean squares", 1e-6, 1e-7)
                near(m[i][3], F, what + "F ratio in row %i" % i, 1e-5, 1e-6)
                p = float(stats.f.sf(max(F, 0), D[i], D[R]))
                pv(m[i][4], p, what + "p value in row %i" % i, 1e-5)
                near(m[i][5], 1 - m[i][4], what + "confidence in row %i" % i, 1e-9)
    L.i_sh_db_close()
    return ["two" if c["two"] else "one"] + (["nt"] if nt else [])


# ------------------------------------------------------------ Fisher's exact test
@st.composite
def fi_c(draw):
    r, k = draw(st.sampled_from([(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (2, 5)]))
    top = {4: 12, 6: 5, 9: 2, 8: 3, 12: 1, 10: 2}[r * k]
    return {"t": [[draw(st.integers(0, top)) for _ in range(k)] for _ in range(r)], "pr": draw(st.permutations(range(r))), "pc": draw(st.permutations(range(k))), "neg": draw(st.integers(0, 25)) == 0}


def tables(rows, cols):
    """all tables with these margins"""
    if len(rows) == 1:
        yield [list(cols)]
        return

    def row(total, caps):
        if len(caps) == 1:
            if total <= caps[0]:
                yield [total]
            return
        for v in range(min(total, caps[0]) + 1):
            for rest in row(total - v, caps[1:]):
                yield [v] + rest
    for first in row(rows[0], cols):
        for rest in tables(rows[1:], [a - b for a, b in zip(cols, first)]):
            yield [first] + rest


def run_fi(c):
    t = c["t"]
    go = lambda x: L.pp_sh_fisher(mk({"m": [[float(v) for v in r] for r in x]}))
    if c["neg"] or not np.sum(t):
        x = [list(r) for r in t]
        if c["neg"]:
            x[0][0] = -1
        o = go(x)
        check(o and L.ip_sh_error(o) == ord("p"), "no error for %s", x)
        u = table(o)
        check(all(v != v for v in u.values()), "numbers for a bad table %s: %s", x, u)
        return ["bad"]
    R, K = [sum(r) for r in t], [sum(k) for k in zip(*t)]
    lf = lambda x: sum(math.lgamma(v + 1) for v in x)
    con = lf(R) + lf(K) - math.lgamma(sum(R) + 1)
    lp = lambda x: con - sum(lf(r) for r in x)
    me = lp(t)
    p = tot = 0.0
    n = 0
    for x in tables(R, K):
        v = lp(x)
        tot += math.exp(v)
        n += 1
        if v <= me + 1e-7:
            p += math.exp(v)
    assert abs(tot - 1) < 1e-7
    for x, w in ((t, ""), ([list(z) for z in zip(*t)], ", transposed"), ([[t[i][j] for j in c["pc"]] for i in c["pr"]], ", rearranged")):
        d = mk({"m": [[float(v) for v in r] for r in x]})
        o = L.pp_sh_fisher(d)
        check(o and not L.ip_sh_error(o), "error for %s", x)
        u = table(o)
        what = "Fisher's test of %s%s: " % (x, w)
        near(u["probability of table"], math.exp(me), what + "probability of the table", 1e-6, 1e-9)
        near(u["p value"], min(p, 1), what + "p", 1e-5, 1e-7)
        eq(dump(d)["m"], [[float(v) for v in r] for r in x], "table")
    return ["%ix%i" % (len(R), len(K))] + (["nt"] if n > 2 else [])


# ------------------------------------------------------------ goodness of fit
@st.composite
def g_c(draw):
    pts = draw(st.lists(st.integers(-5, 9).map(float), min_size=1, max_size=7, unique=True))
    w = draw(st.one_of(st.none(), st.lists(st.one_of(st.integers(0, 9).map(float), st.floats(.01, 3).map(R3)), min_size=len(pts), max_size=len(pts)).filter(any)))
    e = draw(st.lists(st.sampled_from([1.0, 2.0, 5.0, .25]), min_size=len(pts), max_size=len(pts)))
    return {"p": pts, "w": w, "e": e, "order": draw(st.permutations(range(len(pts)))), "lack": draw(st.integers(0, 5)) == 0, "extra": draw(st.booleans()), "m": draw(st.booleans()), "norm": draw(st.booleans())}


def run_g(c):
    pts, w, e = c["p"], c["w"], c["e"]
    W = [1.0] * len(pts) if w is None else [x / sum(w) for x in w] if c["norm"] else w
    lay = lambda x, w: mk({"m": [[v, 1.0] for v in x], "w": w} if c["m"] else {"v": x, "w": w})
    obs = L.ppp_apop_estimate(lay(pts, None if w is None else W), var("apop_pmf"))
    xs, es = [pts[i] for i in c["order"]], [e[i] for i in c["order"]]
    if c["lack"]:
        xs[0] = 50.0
    if c["extra"]:
        xs, es = xs + [60.0], es + [2.0]
    ex = L.ppp_apop_estimate(lay(xs, es), var("apop_pmf"))
    o = L.ppp_sh_gof(obs, ex)
    check(o and not L.ip_sh_error(o), "error")
    t = table(o)
    what = "goodness of fit of %s to %s: " % (list(zip(pts, W)), list(zip(xs, es)))
    if c["lack"]:
        check(t["Chi squared statistic"] == INF and not t["p value"] > 0, what + "statistic %s and p %s, where an observation is impossible", t["Chi squared statistic"], t["p value"])
        return ["impossible"]
    E = dict(zip(xs, [sum(W) * v / sum(es) for v in es]))
    want = sum((v - E[x]) ** 2 / E[x] for x, v in zip(pts, W) if v)
    df = sum(1 for v in W if v) - 1
    near(t["Chi squared statistic"], want, what + "statistic", 1e-8, 1e-9)
    near(t["df"], df, what + "df", 0)
    if df:
        pv(t["p value"], float(stats.chi2.sf(want, df)), what + "p")
        near(t["confidence"], 1 - t["p value"], what + "confidence", 1e-12)
    return ["nt"] if df else ["one bin"]


# ------------------------------------------------------------ Kolmogorov-Smirnov
@st.composite
def ks_c(draw):
    two = draw(st.booleans())
    n, k = draw(st.integers(1, 25)), draw(st.integers(1, 25))
    el = draw(st.sampled_from([st.floats(-3, 3).map(R3), st.integers(-3, 3).map(float), st.floats(0, 1).map(R3)]))
    a = sorted(draw(el) for _ in range(n))
    b = sorted(draw(st.one_of(el, st.sampled_from(a))) for _ in range(k))
    w = st.lists(st.sampled_from([1.0, 2.0, 3.0, .5]), min_size=25, max_size=25)
    nm = draw(st.sampled_from(["normal", "uniform", "t", "gamma"]))
    return {"two": two, "a": a, "b": b, "wa": draw(st.one_of(st.none(), st.none(), w)), "wb": draw(st.one_of(st.none(), st.none(), w)), "m": draw(st.booleans()), "n": nm, "p": list(draw(MODELS[nm].params)), "near": draw(st.booleans())}


def run_ks(c):
    a, b = c["a"], c["b"]
    M, p = MODELS[c["n"]], c["p"]
    if not c["two"] and c["near"]:
        a = sorted(round(float(M.dist(p).ppf(min(max((x + 3) / 6, .01), .99))), 4) for x in a)
    wa, wb = c["wa"] and c["wa"][:len(a)], c["wb"] and c["wb"][:len(b)]
    pmf = lambda x, w: L.ppp_apop_estimate(mk({"m": [[v] for v in x], "w": w} if c["m"] else {"v": x, "w": w}), var("apop_pmf"))
    A = pmf(a, wa)
    step = lambda x, w: lambda t, strict=False: sum(v for y, v in zip(x, w or [1.0] * len(x)) if (y < t if strict else y <= t)) / sum(w or [1.0] * len(x))
    Fa = step(a, wa)
    if c["two"]:
        B = pmf(b, wb)
        Fb = step(b, wb)
        D = max(abs(Fa(t) - Fb(t)) for t in a + b)
        o = L.ppp_sh_ks(A, B)
    else:
        F = lambda t: float(M.dist(p).cdf(t))
        D = max(max(abs(Fa(t) - F(t)), abs(Fa(t, True) - F(t))) for t in a)
        o = L.ppp_sh_ks(A, MD.model(c["n"], p))
    check(o and not L.ip_sh_error(o), "error")
    t = table(o)
    what = "Kolmogorov-Smirnov test of %s%s and %s: " % (a, wa or "", (b, wb) if c["two"] else (c["n"], p))
    near(t["max distance"], D, what + "distance", 1e-9, 1e-7)
    near(t["p value, 2 tail"] + t["confidence, 2 tail"], 1, what + "confidence and p", 1e-12)
    if c["two"]:
        s = table(L.ppp_sh_ks(B, A))
        near(list(s.values()), list(t.values()), what + "samples exchanged", 1e-9, 1e-9)
        if not wa and not wb:
            # exact: share of the paths from (0,0) to (n,k) that reach D
            n, k = len(a), len(b)
            row = None
            for i in range(n + 1):
                new = []
                for j in range(k + 1):
                    if abs(i / n - j / k) >= D - 1e-9:
                        new.append(0)
                    else:
                        new.append(1 if i == j == 0 else (row[j] if i else 0) + (new[j - 1] if j else 0))
                row = new
            pv(t["p value, 2 tail"], 1 - row[k] / math.comb(n + k, n), what + "p")
    elif not wa:
        pv(t["p value, 2 tail"], float(stats.kstwo.sf(D, len(a))), what + "p", 2e-6)
    return ["two" if c["two"] else "one", "nt"]


@st.composite
def kl_c(draw):
    n = draw(st.one_of(st.integers(26, 400), st.integers(400, 1600)))
    return {"n": n, "k": draw(st.sampled_from([0, 0, 30, 100, 250])), "z": draw(st.floats(.3, 2).map(R3)), "side": draw(st.sampled_from([1, -1])), "m": draw(st.booleans())}


def run_kl(c):
    """Samples of many observations: a grid on (0,1), squeezed so that the distance is about z/sqrt(n)."""
    n, k = c["n"], c["k"]
    if k:
        n = min(n, 300)
    e = c["z"] / math.sqrt(n if not k else n * k / (n + k))
    sq = lambda x: x * (1 - e) if c["side"] > 0 else 1 - (1 - x) * (1 - e)
    a = [sq((i + .5) / n) for i in range(n)]
    pmf = lambda x: L.ppp_apop_estimate(mk({"m": [[v] for v in x]} if c["m"] else {"v": x}), var("apop_pmf"))
    if k:
        b = [(i + .5) / k for i in range(k)]
        D = max(abs(sum(v <= t for v in a) / n - sum(v <= t for v in b) / k) for t in a + b)
        t = table(L.ppp_sh_ks(pmf(a), pmf(b)))
        row = None
        for i in range(n + 1):
            new = []
            for j in range(k + 1):
                if abs(i / n - j / k) >= D - 1e-9:
                    new.append(0)
                else:
                    new.append(1 if i == j == 0 else (row[j] if i else 0) + (new[j - 1] if j else 0))
            row = new
        p = float(1 - Fraction(row[k], math.comb(n + k, n)))
    else:
        D = max(max(abs((i + 1) / n - v), abs(i / n - v)) for i, v in enumerate(a))
        t = table(L.ppp_sh_ks(pmf(a), MD.model("uniform", [0, 1])))
        p = float(stats.kstwo.sf(D, n))
    what = "Kolmogorov-Smirnov test of %s observations and %s: " % (n, k or "a uniform distribution")
    near(t["max distance"], D, what + "distance", 1e-9, 1e-9)
    near(t["p value, 2 tail"] + t["confidence, 2 tail"], 1, what + "confidence and p", 1e-12)
    pv(t["p value, 2 tail"], p, what + "p", 2e-6)
    return ["two" if k else "one"] + (["n>650"] if n > 650 else []) + (["nt"] if 1e-9 < p < 1 - 1e-9 else [])


FACETS = [Facet("t", lambda tier: t_c(), run_t, quick=500), Facet("f", lambda tier: f_c(), run_f, quick=400), Facet("f_df", lambda tier: st.just(FDF), lambda c: run_f(c, True), quick=1, thorough=1), Facet("table", lambda tier: chi_c(), run_chi, quick=500), Facet("anova", lambda tier: an_c(), run_an, quick=400),
          Facet("fisher", lambda tier: fi_c(), run_fi, quick=400), Facet("fit", lambda tier: g_c(), run_g, quick=400), Facet("ks", lambda tier: ks_c(), run_ks, quick=500), Facet("ks_many", lambda tier: kl_c(), run_kl, quick=120, thorough=1500)]
