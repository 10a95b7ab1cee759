"""Least squares, instrumental variables, probit and logit."""
import json
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats
from engine import Facet, Bad
from ap import *
import props.C22 as C22
import props.C23 as C23
from props.C23 import info, page, state

RULE = ("ols (also at other parameters than the estimate)/iv: a full-rank design with more observations than coefficients and residuals that are not all zero; glm: both outcomes present and not separable by the fitted line; draws and noise: a fitted model with a distribution of its inputs, drawn from at least once (noise: 3,000 times)")
ASSUMPTIONS = ["designs have a condition number below 1e4, so that the normal equations are solvable to about 1e-8", "weights are non-negative with at least as many positive ones as coefficients"]

FREE = lambda lo, hi: st.floats(lo, hi).map(lambda x: round(x, 3))
NAME = st.sampled_from(["x", "y", "inc ome", "age", "h", "z9", "Q", "log(y)", "b.c", "pct"])


@st.composite
def design(draw, lo=1, hi=4):
    k = draw(st.integers(lo, hi))
    n = draw(st.integers(k + 1, k + 10))
    X = [[1.0] + draw(st.lists(st.one_of(FREE(-9, 9), st.integers(-3, 3).map(float)), min_size=k - 1, max_size=k - 1)) for _ in range(n)]
    y = draw(st.lists(FREE(-30, 30), min_size=n, max_size=n))
    w = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([0.0, 1.0, 1.0, 2.0, 3.0, .5, .25]), min_size=n, max_size=n)))
    names = draw(st.one_of(st.none(), st.lists(NAME, min_size=k, max_size=k, unique=True)))
    return {"X": X, "y": y, "w": w, "names": names}


@st.composite
def ols_c(draw):
    c = draw(design(1, 7))
    n, k = len(c["X"]), len(c["X"][0])
    raw = draw(st.booleans())
    if not raw and draw(st.booleans()):    # a design without a constant column
        for r in c["X"]:
            r[0] = draw(FREE(-5, 5))
    c.update({"raw": raw, "sw": draw(st.sampled_from([None, None, "", "d", "C", "E", "CE", "dE"])), "want": draw(st.sampled_from([None, None, None, "", "c", "p", "cp", "cpt", "t", "itcp", "i"])),
              "perm": draw(st.permutations(range(n))), "cperm": draw(st.permutations(range(k))), "new": draw(st.lists(st.lists(FREE(-9, 9), min_size=k, max_size=k), min_size=1, max_size=4)),
              "rows": draw(st.booleans())})
    return c


def data_of(X, y, w, names, raw, rows=False):
    d = {"w": w}
    if raw:
        d["m"] = [[b] + a[1:] for a, b in zip(X, y)]
        d["cn"] = names
    else:
        d["m"], d["v"] = X, y
        if names:
            d["vn"], d["cn"] = names[0], ["1"] + names[1:]
    if rows:
        d["rn"] = ["r%i" % i for i in range(len(y))]
    return mk({k: v for k, v in d.items() if v is not None})


def ok_design(X, w):
    a = np.array(X) * np.sqrt(np.array(w if w else [1.0] * len(X)))[:, None]
    return sum(x > 0 for x in w or [1] * len(X)) > len(X[0]) and np.linalg.cond(a) < 1e4 and np.max(np.abs(a)) > .1 and np.linalg.svd(a)[1][-1] > .01


def check_fit(e, X, y, w, cov, pred, tests, beta, V, s2, names, sc, r2=True, ll=True):
    n, k = X.shape
    p = dump(L.pp_sh_params(e))
    near(p["v"], beta.tolist(), "coefficients", 1e-7, 1e-7 * sc)
    if names:
        eq(p["n"]["r"], ["1"] + names[1:], "names of the coefficients")
        eq(p["n"]["title"], "Regression of " + names[0], "title")
    c = page(e, "<Covariance>")
    if cov:
        check(c is not None and np.allclose(np.array(c["m"]), V, 1e-6, 1e-7 * sc * sc), "covariance %s, expected %s", c and c["m"], V.tolist())
        near(page(e, "<Error variance>")["v"][0], s2, "error variance", 1e-7, 1e-8 * sc * sc)
        if names:
            eq([c["n"]["r"], c["n"]["c"]], [["1"] + names[1:]] * 2, "names of the covariance")
    i = dump(L.pp_sh_info(e))
    pg = i
    while pg and pg["n"]["title"] != "<Predicted>":
        pg = pg["more"]
    fit = X @ beta
    if pred:
        check(pg is not None, "no predicted values")
        check(np.allclose(np.array(pg["m"]), np.array([y, fit, y - fit]).T, 1e-7, 1e-7 * sc), "observed, predicted and residual %s, expected %s", pg["m"], np.array([y, fit, y - fit]).T.tolist())
        if names:
            eq(pg["n"]["c"], ["Observed", "Predicted", "Residual"], "columns of the predictions")
    else:
        eq(pg, None, "predictions when not asked for")
    W = np.array(w) if w else np.ones(n)
    if r2 and pred:
        sse = float((W * (y - fit) ** 2).sum())
        ybar = float((W * y).sum() / W.sum())
        sst = float((W * (y - ybar) ** 2).sum())
        near(info(e, "SSE"), sse, "SSE", 1e-7, 1e-8 * sc * sc)
        near(info(e, "SST"), sst, "SST", 1e-7, 1e-8 * sc * sc)
        near(info(e, "SSR"), sst - sse, "SSR", 1e-7, 1e-8 * sc * sc)
        if sst > 1e-6 * sc * sc:
            near(info(e, "R squared"), 1 - sse / sst, "R squared", 1e-6, 1e-6)
            near(info(e, "R squared adj"), 1 - (sse / sst) * (n - 1) / (n - k), "adjusted R squared", 1e-6, 1e-6)
    elif r2:
        eq(info(e, "SSE"), None, "sums of squares when predictions are not asked for")
    if tests:
        t = i
        while t and t["n"]["title"] != "<test info>":
            t = t["more"]
        check(t is not None, "no tests")
        eq(t["n"]["c"], ["p value", "confidence"], "columns of the tests")
        if names:
            eq(t["n"]["r"], ["1"] + names[1:], "rows of the tests")
        eq(info(e, "df"), n - k, "degrees of freedom")
        if s2 > 1e-9 * sc * sc:
            for j in range(k):
                pv = 2 * stats.t.sf(abs(beta[j]) / math.sqrt(V[j, j]), n - k)
                near(t["m"][j][0], pv, "p value of coefficient %i" % j, 1e-4, 1e-6)
                near(t["m"][j][1], 1 - pv, "confidence of coefficient %i" % j, 1e-4, 1e-6)


def run_ols(c):
    X, y, w = np.array(c["X"]), np.array(c["y"]), c["w"]
    n, k = X.shape
    if not ok_design(c["X"], w):
        return []
    base = var("apop_ols")
    m = L.pppss_sh_lm(base, None, c["sw"], c["want"])
    d = data_of(c["X"], c["y"], w, c["names"], c["raw"], c["rows"])
    keep = data_of(c["X"], c["y"], w, c["names"], False, c["rows"])
    mb = state(m)
    e = L.ppp_apop_estimate(d, m)
    eq(state(m), mb, "the model handed to apop_estimate")
    sw, want = c["sw"] or "", c["want"]
    if "d" not in sw:
        eq(dump(d), dump(keep), "the data after estimation")
    cov, pred, tests = ("C" not in sw, "E" not in sw, "C" not in sw) if want is None else ("c" in want or "t" in want, "p" in want, "t" in want)
    W = np.array(w) if w else np.ones(n)
    XtWX = X.T @ (W[:, None] * X)
    beta = np.linalg.solve(XtWX, X.T @ (W * y))
    res = y - X @ beta
    s2 = float((W * res * res).sum() / (n - k))
    V = s2 * np.linalg.inv(XtWX)
    sc = float(np.max(np.abs(y)) + np.max(np.abs(beta)) + 1)
    check_fit(e, X, y, w, cov, pred, tests, beta, V, s2, c["names"], sc)
    # its log likelihood
    got = np.array(dump(L.pp_sh_params(e))["v"])
    r = y - X @ got
    sig2 = s2 if cov or pred else float(np.var(r, ddof=1))
    labels = ["raw" if c["raw"] else "prepped", "weights" if w else "no weights"]
    if sig2 > 1e-9 * sc * sc:
        ll = sum(.5 * math.log(a) - .5 * math.log(2 * math.pi * sig2) - a * b * b / (2 * sig2) for a, b in zip(W, r) if a > 0)
        near(info(e, "log likelihood"), ll, "log likelihood", 1e-6, 1e-5)
        near(info(e, "AIC"), 2 * k - 2 * info(e, "log likelihood"), "AIC", 1e-9, 1e-9)
        near(info(e, "BIC"), k * math.log(n) - 2 * info(e, "log likelihood"), "BIC", 1e-9, 1e-9)
        if "d" not in sw:
            near(L.dpp_apop_log_likelihood(d, e), ll, "log likelihood of the same data", 1e-6, 1e-5)
        near(L.dpp_apop_log_likelihood(keep, e), ll, "log likelihood of a copy of the data", 1e-6, 1e-5)
        # of other outcomes for the same rows, as many and fewer
        for y3, X3, w3 in ((-y[::-1] + 1.5, X, w), (-y[:-1] - 1, X[:-1], w[:-1] if w else None)):
            r3 = y3 - X3 @ got
            s3 = sig2 if cov or pred else float(np.var(r3, ddof=1))
            if s3 > 1e-9 * sc * sc and len(y3) > 1:
                ll3 = sum(.5 * math.log(a) - .5 * math.log(2 * math.pi * s3) - a * b * b / (2 * s3) for a, b in zip(w3 or np.ones(len(y3)), r3) if a > 0)
                near(L.dpp_apop_log_likelihood(data_of(X3.tolist(), y3.tolist(), w3, c["names"], False), e), ll3, "log likelihood of other data, %s" % y3.tolist(), 1e-6, 1e-5)
        if c["raw"] or not (X[:, 0] - 1).any():
            near(L.dpp_apop_log_likelihood(data_of(c["X"], c["y"], w, c["names"], True), e), ll, "log likelihood of the data before its preparation", 1e-6, 1e-5)
        labels.append("nt")
    # at other parameters: the likelihood, and its derivatives
    e2 = L.pp_apop_model_copy(e) if c["rows"] else e
    at = got + np.array((c["new"][0] * k)[:k]) * sc / 40
    L.vpiP_sh_fill(L.pp_sh_params(e2), k, at.tolist())

    def ll_at(b):
        r = y - X @ b
        s = sig2 if cov or pred else float(np.var(r, ddof=1))
        return s > 0 and sum(.5 * math.log(a) - .5 * math.log(2 * math.pi * s) - a * v * v / (2 * s) for a, v in zip(W, r) if a > 0), s
    ll, s = ll_at(at)
    if s > 1e-6 * sc * sc:
        for what, dd in (("a copy of the data", keep),) + ((("the data", d),) if "d" not in sw else ()):
            near(L.dpp_apop_log_likelihood(dd, e2), ll, "log likelihood of %s at %s" % (what, at.tolist()), 1e-6, 1e-5)
            g = dump(L.ppp_sh_score(dd, e2))["v"]
            h = np.eye(k) * 1e-4 * math.sqrt(s) / (1 + np.abs(X).max())
            num = [(ll_at(at + h[i])[0] - ll_at(at - h[i])[0]) / (2 * h[i][i]) for i in range(k)]
            big = max(1, max(abs(v) for v in num), float((W * np.abs(y - X @ at)) @ np.abs(X).sum(axis=1)) / s)
            near(g, num, "score at %s" % at.tolist(), 1e-4, 1e-5 * big)
        labels.append("elsewhere")
    L.vpiP_sh_fill(L.pp_sh_params(e2), k, got.tolist())
    # rows in another order, columns in another order
    P, Q = list(c["perm"]), list(c["cperm"])
    if c["raw"]:
        Q = [0] + [q for q in Q if q]
    X2 = X[P][:, Q]
    d2 = data_of(X2.tolist(), y[P].tolist(), [w[i] for i in P] if w else None, None, c["raw"])
    e2 = L.ppp_apop_estimate(d2, base)
    near(dump(L.pp_sh_params(e2))["v"], [float(got[q]) for q in Q], "coefficients with rows and columns in another order", 1e-7, 1e-7 * sc)
    if w and all(x == int(x) for x in w):
        rep = [i for i in range(n) for _ in range(int(w[i]))]
        e3 = L.ppp_apop_estimate(data_of(X[rep].tolist(), y[rep].tolist(), None, None, c["raw"]), base)
        near(dump(L.pp_sh_params(e3))["v"], got.tolist(), "coefficients with observations repeated in place of weights", 1e-7, 1e-7 * sc)
        labels.append("repeated")
    # prediction
    new = np.array(c["new"])
    nd = mk({"m": new.tolist(), "v": [0.0] * len(new)})
    pr = dump(L.ppp_apop_predict(nd, e))
    near(pr["v"], (new @ got).tolist(), "prediction", 1e-9, 1e-9 * sc)
    new[:, 0] = np.arange(len(new))
    pr = dump(L.ppp_apop_predict(mk({"m": new.tolist()}), e))
    new[:, 0] = 1
    near(pr["v"], (new @ got).tolist(), "prediction given a column for the outcome", 1e-9, 1e-9 * sc)
    return labels


@st.composite
def iv_c(draw):
    c = draw(design(2, 4))
    n, k = len(c["X"]), len(c["X"][0])
    cols = draw(st.lists(st.integers(1, k - 1), min_size=1, max_size=k - 1, unique=True))
    c.update({"cols": cols, "Z": [[draw(FREE(-3, 3)) for _ in cols] for _ in range(n)], "mix": draw(st.sampled_from([.5, 1.0])), "raw": draw(st.booleans()), "by": draw(st.sampled_from(["number", "name"])), "none": draw(st.integers(0, 9)),
              "want": draw(st.sampled_from([None, None, None, "", "c", "p", "cp"])), "sw": draw(st.sampled_from([None, None, "d"]))})
    return c


def run_iv(c):
    X, y, w = np.array(c["X"]), np.array(c["y"]), c["w"]
    n, k = X.shape
    Zc = X[:, c["cols"]] + c["mix"] * np.array(c["Z"])
    Z = X.copy()
    Z[:, c["cols"]] = Zc
    W = np.array(w) if w else np.ones(n)
    ZtWX = Z.T @ (W[:, None] * X)
    if not ok_design(c["X"], w) or np.linalg.cond(ZtWX) > 1e5:
        return []
    names = c["names"] or (["out"] + ["c%i" % i for i in range(1, k)] if c["by"] == "name" else None)
    ins = None
    if c["none"]:
        ins = mk({"m": Zc.tolist(), "cn": [names[i] for i in c["cols"]]} if c["by"] == "name" else {"m": Zc.tolist()})
        if c["by"] == "number":
            iv = mk({"v": [float(i) for i in c["cols"]]})
            ins = L.ppp_sh_data_of(vec([float(i) for i in c["cols"]]), mat(Zc.tolist()))
    else:
        Z = X
        ZtWX = Z.T @ (W[:, None] * X)
    base = var("apop_iv")
    m = L.pppss_sh_lm(base, ins, c["sw"], c["want"])
    before, ib = None, dump(ins)
    d = data_of(c["X"], c["y"], w, names, c["raw"])
    keep = data_of(c["X"], c["y"], w, names, False)
    e = L.ppp_apop_estimate(d, m)
    eq(dump(ins), ib, "the instruments after estimation")
    if c["sw"] is None:
        eq(dump(d), dump(keep), "the data after estimation")
    inv = np.linalg.inv(ZtWX)
    beta = inv @ (Z.T @ (W * y))
    res = y - X @ beta
    s2 = float((W * res * res).sum() / (n - k))
    V = s2 * inv @ (Z.T @ (W[:, None] * Z)) @ inv.T
    sc = float(np.max(np.abs(y)) + np.max(np.abs(beta)) + 1) * (1 + np.max(np.abs(inv)) ** .5)
    want = c["want"]
    cov, pred = (True, True) if want is None else (want != "", "p" in want)
    check_fit(e, X, y, w, cov, pred, False, beta, V, s2, names, sc, r2=False)
    return ["instruments" if c["none"] else "none", c["by"], "weights" if w else "no weights"] + (["nt"] if s2 > 1e-9 * sc * sc else [])


FACETS = [Facet("ols", lambda tier: ols_c(), run_ols, quick=700), Facet("iv", lambda tier: iv_c(), run_iv, quick=400)]


# ---------------------------------------------------------------- logit and probit
def cdf(x):
    return np.clip(stats.norm.cdf(x), None, None)


def glm_ll(kind, X, y, B):
    """y: categories 0..c-1; B: k x (c-1)"""
    xb = X @ B
    if kind == "logit":
        full = np.column_stack([np.zeros(len(X)), xb])
        mx = full.max(axis=1)
        return float((full[np.arange(len(y)), y] - mx - np.log(np.exp(full - mx[:, None]).sum(axis=1))).sum())
    return float(sum(np.where(y == j + 1, special.log_ndtr(xb[:, j]), special.log_ndtr(-xb[:, j])).sum() for j in range(B.shape[1])))


def glm_top(kind, X, y, c):
    from scipy import optimize
    k = X.shape[1]
    f = lambda b: -glm_ll(kind, X, y, b.reshape(k, c - 1)) + 0 * b.sum()
    r = optimize.minimize(f, np.zeros(k * (c - 1)), method="BFGS", options={"gtol": 1e-6})
    return r.x.reshape(k, c - 1), -r.fun


@st.composite
def glm_c(draw):
    kind = draw(st.sampled_from(["logit", "probit"]))
    c = draw(st.sampled_from([2, 2, 2, 3, 3, 4]))
    k = draw(st.integers(1, 3))
    n = draw(st.integers(8, 24))
    codes = draw(st.sampled_from([[0, 1, 2, 3], [0, 1, 2, 3], [1, 2, 5, 9], [-2, 0, 1.5, 7]]))[:c]
    y = [codes[i] for i in range(c)] + draw(st.lists(st.sampled_from(codes), min_size=n - c, max_size=n - c))
    X = [[1.0] + [draw(FREE(-2, 2)) for _ in range(k - 1)] for _ in range(n)]
    return {"kind": kind, "X": X, "y": [float(a) for a in draw(st.permutations(y))], "raw": draw(st.booleans()), "names": draw(st.one_of(st.none(), st.lists(NAME, min_size=k, max_size=k, unique=True))),
            "perm": draw(st.permutations(range(n))), "far": draw(st.sampled_from([1, 1, 1, 30, 1000])), "at": [[draw(FREE(-2, 2)) for _ in range(c - 1)] for _ in range(k)], "new": [[1.0] + [draw(FREE(-3, 3)) for _ in range(k - 1)] for _ in range(3)]}


def run_glm(c):
    kind, X = c["kind"], np.array(c["X"])
    codes = sorted(set(c["y"]))
    y = np.array([codes.index(a) for a in c["y"]])
    n, k = X.shape
    nc = len(codes)
    if k > 1 and np.linalg.cond(X) > 100:
        return []
    base = var("apop_" + kind)
    mb = state(base)
    d = data_of(c["X"], c["y"], None, c["names"], c["raw"])
    e = L.ppp_apop_estimate(d, base)
    eq(state(base), mb, "the model handed to apop_estimate")
    dd = dump(d)
    near(dd["v"], [float(a) for a in y], "categories in the data after estimation", 0, 0)
    eq(dd["m"], X.tolist(), "inputs in the data after estimation")
    p = dump(L.pp_sh_params(e))
    B = np.array(p["m"])
    eq(B.shape, (k, nc - 1), "size of the parameters")
    labelled = ["%g" % a for a in codes]
    eq(p["n"]["c"], labelled[1:], "columns of the parameters")
    if c["names"]:
        eq(p["n"]["r"], ["1"] + c["names"][1:], "rows of the parameters")
    ll = glm_ll(kind, X, y, B)
    far = np.max(np.abs(X @ B)) > 5
    if not far:
        near(L.dpp_apop_log_likelihood(d, e), ll, "log likelihood at the estimate", 1e-8, 1e-8)
        near(info(e, "log likelihood"), ll, "log likelihood reported", 1e-8, 1e-8)
        near(info(e, "AIC"), 2 * k * (nc - 1) - 2 * ll, "AIC", 1e-7, 1e-7)
    T, tl = glm_top(kind, X, y, nc)
    labels = [kind, str(nc)]
    status = info(e, "status")
    if np.max(np.abs(X @ T)) < 4 and status == 0:
        check(ll >= tl - 1e-4 * (1 + abs(tl)), "%s: log likelihood %s at the estimate %s, %s at %s", kind, ll, B.tolist(), tl, T.tolist())
        d2 = data_of(X[list(c["perm"])].tolist(), [c["y"][i] for i in c["perm"]], None, None, c["raw"])
        e2 = L.ppp_apop_estimate(d2, base)
        near(info(e2, "log likelihood"), tl, "log likelihood with the rows in another order", 1e-4, 1e-4)
        labels.append("nt")
    # at other parameters
    A = np.array(c["at"])
    m2 = L.pp_apop_model_copy(e)
    L.vpiP_sh_fill(L.pp_sh_params(m2), A.size, A.ravel().tolist())
    if kind == "logit":
        N = np.array(c["new"]) * c["far"]
        pr = dump(L.ppp_apop_predict(mk({"m": N.tolist(), "v": [0.0] * len(N)}), m2))
        xb = np.column_stack([np.zeros(len(N)), N @ A])
        P = np.exp(xb - xb.max(axis=1)[:, None])
        P /= P.sum(axis=1)[:, None]
        check(np.allclose(np.array(pr["m"]), P, 1e-9, 1e-12), "probabilities %s, expected %s", pr["m"], P.tolist())
        near(pr["v"], [float(i) for i in xb.argmax(axis=1)], "most likely categories", 0, 0)
        eq(pr["n"]["c"], labelled, "columns of the probabilities")
    if np.max(np.abs(X @ A)) > 5:    # in the tails, a probability of one less a little is kept as one
        return labels
    near(L.dpp_apop_log_likelihood(d, m2), glm_ll(kind, X, y, A), "log likelihood at %s" % A.tolist(), 1e-7, 1e-7)
    g = dump(L.ppp_sh_score(d, m2))["v"]
    num = []
    for i in range(k):
        for j in range(nc - 1):
            h = np.zeros_like(A)
            h[i, j] = 1e-5
            num.append((glm_ll(kind, X, y, A + h) - glm_ll(kind, X, y, A - h)) / 2e-5)
    near(g, num, "score at %s" % A.tolist(), 1e-3, 2e-3)
    return labels


FACETS.append(Facet("glm", lambda tier: glm_c(), run_glm, quick=240))


# ---------------------------------------------------------------- draws
@st.composite
def draw_c(draw):
    c = draw(design())
    k = len(c["X"][0])
    c.update({"kind": draw(st.sampled_from(["ols", "ols", "logit"])), "beta": draw(st.lists(FREE(-5, 5), min_size=k, max_size=k)), "count": draw(st.integers(1, 6)), "raw": draw(st.booleans()),
              "cat": draw(st.lists(st.sampled_from([0.0, 1.0, 2.0]), min_size=len(c["X"]), max_size=len(c["X"]))), "seed": draw(st.integers(1, 10 ** 6))})
    return c


def run_draw(c):
    X = np.array(c["X"])
    n, k = X.shape
    if not ok_design(c["X"], None):
        return []
    logit = c["kind"] == "logit"
    if logit and len(set(c["cat"])) < 2:
        return []
    y = np.array(c["cat"]) if logit else X @ np.array(c["beta"])
    base = L.pppss_sh_lm(var("apop_" + c["kind"]), None, "", None)
    if logit:
        base = L.ppsddiiPdis_sh_mle(base, "", 0, 0, 0, 0, [], 0, 0, "")
    d = data_of(c["X"], y.tolist(), None, None, c["raw"])
    e = L.ppp_apop_estimate(d, base)
    L.vpp_sh_lm_input(e, L.ppp_apop_estimate(mk({"m": c["X"]}), var("apop_pmf")))
    out = dump(L.ppiip_sh_model_draws(e, 0, c["count"], None))["m"]
    eq(len(out), c["count"], "number of draws")
    p = dump(L.pp_sh_params(e))
    for r in out:
        eq(len(r), k + 1, "size of a draw")
        check(any(np.array_equal(np.array(r[1:]), x) for x in X), "drew inputs %s, which are not in the input distribution %s", r[1:], c["X"])
        if logit:
            check(r[0] in range(len(set(c["cat"]))), "drew category %s", r[0])
        else:
            near(r[0], float(np.array(r[1:]) @ np.array(p["v"])), "outcome drawn from a regression with no error", 1e-6, 1e-6)
    return [c["kind"], "nt"]


FACETS.append(Facet("draws", lambda tier: draw_c(), run_draw, quick=150))


@st.composite
def noise_c(draw):
    c = draw(design(1, 7))
    n, k = len(c["X"]), len(c["X"][0])
    c.update({"kind": draw(st.sampled_from(["ols", "ols", "logit"])), "raw": draw(st.booleans()), "cat": draw(st.lists(st.sampled_from([0.0, 1.0, 2.0]), min_size=n, max_size=n)), "seed": draw(st.integers(1, 10 ** 6)),
              "iw": draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 1.0, 2.0, .5]), min_size=n, max_size=n).filter(any))), "B": draw(st.lists(FREE(-.4, .4), min_size=2 * k, max_size=2 * k)), "own": draw(st.booleans()), "copy": draw(st.booleans())})
    return c


def run_noise(c):
    """inputs are from their distribution; outcomes are Normal around the line, or have the category's odds"""
    X, w, logit = np.array(c["X"]), c["w"], c["kind"] == "logit"
    n, k = X.shape
    if not ok_design(c["X"], w) or logit and len(set(c["cat"])) < 2:
        return []
    if logit:
        w = None
    y = np.array(c["cat"] if logit else c["y"])
    base = var("apop_" + c["kind"])
    if not (logit and c["own"]):
        base = L.pppss_sh_lm(base, None, "", None)
    if logit:
        base = L.ppsddiiPdis_sh_mle(base, "", 0, 0, 0, 0, [], 0, 0, "")
    e = L.ppp_apop_estimate(data_of(c["X"], y.tolist(), w, None, c["raw"]), base)
    iw = c["iw"] or [1.0] * n
    if logit and c["own"]:
        iw = [1.0] * n
    else:
        if not logit:
            check(np.all(arr(L.ppiii_sh_draws(e, 2, k + 1, 3))[:, k + 1]), "drew from a regression with no distribution of its inputs")
        L.vpp_sh_lm_input(e, L.ppp_apop_estimate(mk({"m": c["X"], "w": c["iw"]} if c["iw"] else {"m": c["X"]}), var("apop_pmf")))
    if c["copy"]:
        e = L.pp_apop_model_copy(e)
    if logit:
        nc = len(set(c["cat"]))
        B = np.array(c["B"][:k * (nc - 1)]).reshape(k, nc - 1)
        L.vpiP_sh_fill(L.pp_sh_params(e), B.size, B.ravel().tolist())
    N = 3000
    a = C22.take(e, N, k + 1, c["seed"], c["kind"])
    # which row of the inputs
    U = sorted({tuple(x) for x in c["X"]})
    pos = {u: i for i, u in enumerate(U)}
    P = np.zeros(len(U))
    for x, v in zip(c["X"], iw):
        P[pos[tuple(x)]] += v / sum(iw)
    who = [pos.get(tuple(r)) for r in a[:, 1:].tolist()]
    check(None not in who, "drew inputs that are not in their distribution, %s", c["X"])
    F = np.cumsum(P)
    C22.ks(np.array(who, dtype=float), lambda u: F[np.clip(u.astype(int), -1, len(U) - 1)] * (u >= 0), "inputs drawn from %s with weights %s" % (c["X"], iw), "int")
    if logit:
        xb = np.column_stack([np.zeros(N), a[:, 1:] @ B])
        Q = np.exp(xb)
        Q /= Q.sum(axis=1)[:, None]
        for j in range(nc):
            for what, f in [("in all", np.ones(N))] + [("times input %i" % i, a[:, 1 + i]) for i in range(k)]:
                d = ((a[:, 0] == j) - Q[:, j]) * f
                sd = math.sqrt(float((Q[:, j] * (1 - Q[:, j]) * f * f).sum()))
                check(abs(float(d.sum())) <= 6.5 * sd + np.max(np.abs(f)) + 1e-9, "category %s %s: %s above its expectation, with standard deviation %s; parameters %s", j, what, float(d.sum()), sd, B.tolist())
        return ["logit", "own inputs" if c["own"] else "given inputs", "nt"]
    b = np.array(dump(L.pp_sh_params(e))["v"])
    W = np.array(w) if w else np.ones(n)
    s = math.sqrt(float((W * (y - X @ b) ** 2).sum()) / n)
    if s < 1e-6 * (1 + np.max(np.abs(y))):
        return []
    z = (a[:, 0] - a[:, 1:] @ b) / s
    C22.ks(z, stats.norm.cdf, "errors, over %s, drawn from a regression of %s on %s" % (s, y.tolist(), c["X"]))
    # no relation to the inputs
    for i in range(k):
        f = a[:, 1 + i]
        check(abs(float((z * f).sum())) <= 7 * math.sqrt(float((f * f).sum())), "errors move with input %i", i)
    return ["ols", "weights" if w else "no weights", "nt"]


FACETS.append(Facet("noise", lambda tier: noise_c(), run_noise, quick=240))


# ------------------------------------------------------------ no unique solution
@st.composite
def sing_c(draw):
    n = draw(st.integers(2, 8))
    a = [float(draw(st.integers(-4, 4))) for _ in range(n)]
    how = draw(st.sampled_from(["zero", "all zero", "double", "same"]))
    X = [[0.0, x] if how == "zero" else [0.0] if how == "all zero" else [x, 2 * x] if how == "double" else [x, x] for x in a]
    return {"X": X, "y": [draw(FREE(-9, 9)) for _ in range(n)], "want": draw(st.sampled_from([None, "", "c", "p", "cpt", "t", "i"])), "iv": draw(st.booleans()), "w": draw(st.booleans())}


def run_sing(c):
    d = mk({"m": c["X"], "v": c["y"], **({"w": [4.0] * len(c["y"])} if c["w"] else {})})
    before = dump(d)
    m = L.pppss_sh_lm(var("apop_iv" if c["iv"] else "apop_ols"), None, None, c["want"])
    e = L.ppp_apop_estimate(d, m)
    eq(dump(d), before, "the data")
    if not L.ip_sh_merror(e) and any(x[0] for x in c["X"]):
        return ["rounded"]     # rounding may leave a tiny pivot in place of the zero
    check(L.ip_sh_merror(e), "regressing on %s gave %s, with no error mark", c["X"], dump(L.pp_sh_params(e))["v"])
    check(all(math.isnan(x) for x in dump(L.pp_sh_params(e))["v"]), "coefficients with no unique solution: %s", dump(L.pp_sh_params(e))["v"])
    return ["nt"]


FACETS.append(Facet("singular", lambda tier: sing_c(), run_sing, quick=100))
