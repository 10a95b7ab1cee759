"""Estimation: closed forms and maximum-likelihood searches."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy import stats, special
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD
from models import MODELS, INF
import props.C20 as C20

RULE = ("closed and rows: a data set with at least two different values (two or more rows), estimated in one arrangement and again permuted in another; quad and mle: a search whose starting point is not already the top; "
        "bound: every search under linear constraints; expected: a prediction from an estimated Normal; anneal: every simulated annealing of a quadratic; restart: a sequence of restarts in which the log likelihood rose at least once")
ASSUMPTIONS = ["searches start at interior points", "annealing is held to never ending lower than its start, to the closest reachable place to the top of a one-parameter quadratic, and to coming near the top of one with two or three", "root-finding (Newton) methods may end with status -1; their results are then not held to be good",
               "with constraints, a search is held to be admissible, no lower than its start, and truthful about its log likelihood", "constraint sets are boxes or single half-spaces, where apop_linear_constraint is exact"]

FREE = lambda lo, hi: st.floats(lo, hi).map(lambda x: round(x, 4))
VALS = {"normal": st.one_of(FREE(-20, 20), st.integers(-3, 3).map(float)), "t": FREE(-20, 20), "uniform": FREE(-20, 20), "lognormal": FREE(.05, 40), "exponential": FREE(.01, 30), "gamma": FREE(.05, 30),
        "beta": FREE(.02, .98), "bernoulli": st.sampled_from([0.0, 1.0, 1.0, 0.0, 2.0, -1.0]), "poisson": st.integers(0, 12).map(float), "zipf": st.sampled_from([1.0, 1, 1, 2, 3, 4, 7, 30.0]), "yule": st.sampled_from([1.0, 1, 1, 2, 3, 4, 7, 30.0])}


def state(m):
    return (json.loads(L.sp_sh_mstate(m)))


import json


def info(m, key):
    d = dump(L.pp_sh_info(m))
    if not d or key not in d["n"]["r"]:
        return None
    return d["v"][d["n"]["r"].index(key)]


def page(m, title):
    d = dump(L.pp_sh_params(m))
    while d and d["n"]["title"] != title:
        d = d["more"]
    return d


def infopage(m, title):
    d = dump(L.pp_sh_info(m))
    while d:
        if d["n"] and d["n"]["title"] == title:
            return d
        d = d["more"]


def closed_ref(name, x):
    n, mu = len(x), float(np.mean(x))
    v = float(np.var(x, ddof=1)) if n > 1 else 0.0
    if name == "normal":
        return [mu, math.sqrt(v)], ["μ", "σ"]
    if name == "lognormal":
        y = np.log(x)
        return [float(np.mean(y)), float(np.std(y, ddof=1))], ["μ", "σ"]
    if name == "t":
        return [mu, math.sqrt((n - 3) / (n - 1) * v), n - 1.0], ["μ", "σ", "df"]
    if name == "uniform":
        return [min(x), max(x)], ["min", "max"]
    if name == "exponential":
        return [mu], ["μ"]
    if name == "poisson":
        return [mu], ["λ"]
    if name in ("gamma", "beta"):
        v *= (n - 1) / n
    if name == "gamma":
        return [mu * mu / v, v / mu], None
    if name == "beta":
        a = mu * mu * ((1 - mu) / v - 1 / mu)
        return [a, a * (1 - mu) / mu], ["α", "β"]
    if name == "bernoulli":
        return [float(np.mean(np.asarray(x) != 0))], ["p"]


@st.composite
def closed_c(draw):
    name = draw(st.sampled_from(["normal", "lognormal", "t", "uniform", "exponential", "poisson", "gamma", "beta", "bernoulli"]))
    x = draw(st.lists(VALS[name], min_size=4, max_size=14).filter(lambda x: len(set(x)) > 1))
    return {"n": name, "x": x, "how": draw(st.sampled_from("vVmMbbb")), "cols": draw(st.integers(1, 3)), "perm": draw(st.permutations(range(len(x)))), "how2": draw(st.sampled_from("vVmMb")),
            "other": draw(st.lists(FREE(.05, .95), min_size=4, max_size=6)), "w": draw(st.booleans())}


def run_closed(c):
    name, x = c["n"], c["x"]
    n = len(x)
    base = var(MODELS[name].c)
    d = C20.layout(x, c["how"], c["cols"])
    before, mb = dump(d), state(base)
    e = L.ppp_apop_estimate(d, base)
    eq(dump(d), before, "the data after estimation")
    eq(state(base), mb, "the model handed to apop_estimate")
    check(e != base, "the estimate is the input model")
    want, names = closed_ref(name, x)
    got = dump(L.pp_sh_params(e))
    scale = max(abs(y) for y in x) + 1
    for g, w in zip(got["v"], want):
        near(g, w, "%s estimated from %s" % (name, x), 1e-9, 1e-10 * scale)
    eq(len(got["v"]), len(want), "parameters")
    if names:
        eq([y.encode("latin1").decode("utf8") for y in got["n"]["r"]], names, "names of the parameters")
    ll = info(e, "log likelihood")
    check(ll is not None, "%s: no log likelihood reported: %s", name, dump(L.pp_sh_info(e)))
    direct = L.dpp_apop_log_likelihood(d, e)
    C20.cmp(ll, direct, 1e-9 * (1 + abs(direct)) if math.isfinite(direct) else 0, "reported log likelihood of " + name)
    cov = page(e, "<Covariance>")
    v = np.var(x, ddof=1)
    if name == "normal":
        near(cov["m"][0][0], v / n, "variance of the mean", 1e-9, 1e-12)
        near(cov["m"][1][1], v / (2 * (n - 1)), "variance of sigma", 1e-9, 1e-12)
        near(cov["m"][0][1], 0, "covariance", 0, 0)
    elif name == "bernoulli":
        near(cov["m"][0][0], want[0] * (1 - want[0]) / n, "variance of p", 1e-9, 1e-12)
    elif name == "poisson":     # bootstrapped: the mean of n draws from the rows
        check(cov is not None, "no covariance")
    # the same numbers in another order and arrangement, after estimating something else
    L.ppp_apop_estimate(vec_d(c["other"]), var("apop_beta"))
    L.ppp_apop_estimate(vec_d(c["other"]), base if name not in ("bernoulli", "poisson") else var("apop_normal"))
    d2 = C20.layout([x[i] for i in c["perm"]], c["how2"], c["cols"])
    e2 = L.ppp_apop_estimate(d2, base)
    for g, w in zip(dump(L.pp_sh_params(e2))["v"], got["v"]):
        near(g, w, "%s from the same numbers rearranged" % name, 1e-9, 1e-10 * scale)
    if math.isfinite(ll):
        near(info(e2, "log likelihood"), ll, "log likelihood of the same numbers rearranged", 1e-9, 1e-9 * n)
    e3 = L.ppp_apop_estimate(d, base)
    eq(dump(L.pp_sh_params(e3))["v"], got["v"], "estimating a second time")
    e4 = L.ppp_apop_estimate(d, e)
    eq(dump(L.pp_sh_params(e4))["v"], got["v"], "estimating again from the estimated model")
    eq(dump(L.pp_sh_params(e))["v"], got["v"], "the estimated model after being estimated again")
    # a top of the likelihood where the estimator is the maximum-likelihood one
    if name in ("exponential", "poisson", "bernoulli", "uniform") and math.isfinite(ll):
        for k in range(len(want)):
            for h in (1e-3, -1e-3, .05, -.05):
                p = list(got["v"])
                p[k] += h * max(abs(p[k]), .1)
                if name == "bernoulli" and not 0 < p[0] < 1 or p[0] <= 0 and name != "uniform" or name == "uniform" and p[0] >= p[1]:
                    continue
                o = L.dpp_apop_log_likelihood(d, MD.model(name, p))
                check(o <= ll + 1e-9 * (1 + abs(ll)), "%s of %s: log likelihood %s at the estimate %s, %s at %s", name, x, ll, got["v"], o, p)
    return [name, c["how"], "nt"]


def vec_d(x):
    return C20.layout(x, "v", 1)


@st.composite
def multi_c(draw):
    kind = draw(st.sampled_from(["multinomial", "multinomial", "binomial", "mvn", "mvn"]))
    k = 2 if kind == "binomial" else draw(st.integers(2, 5)) if kind == "multinomial" else draw(st.integers(1, 4))
    rows = draw(st.integers(1, 6)) if kind != "mvn" else draw(st.integers(k + 1, k + 8))
    if kind == "mvn":
        m = [[draw(FREE(-10, 10)) for _ in range(k)] for _ in range(rows)]
    else:
        N = draw(st.integers(1, 12))
        m = []
        for _ in range(rows):
            cuts = sorted(draw(st.lists(st.integers(0, N), min_size=k - 1, max_size=k - 1)))
            m.append([float(b - a) for a, b in zip([0] + cuts, cuts + [N])])
    return {"k": kind, "m": m, "big": draw(st.booleans()), "perm": draw(st.permutations(range(rows)))}


def run_multi(c):
    kind, m = c["k"], c["m"]
    a = np.array(m)
    rows, k = a.shape
    base = var("apop_" + {"mvn": "multivariate_normal"}.get(kind, kind))
    flat = [y for r in m for y in r]
    d = L.ppp_sh_data_of(None, (L.piiP_sh_mat_strided if c["big"] else L.piiP_sh_mat)(rows, k, flat))
    if kind == "mvn" and np.linalg.cond(np.cov(a.T).reshape(k, k)) > 1e7:
        return []
    before, mb = dump(d), state(base)
    e = L.ppp_apop_estimate(d, base)
    eq(dump(d), before, "the data after estimation")
    eq(state(base), mb, "the model handed to apop_estimate")
    got = dump(L.pp_sh_params(e))
    if kind == "mvn":
        for g, w in zip(got["v"], a.mean(axis=0)):
            near(g, float(w), "means", 1e-10, 1e-10)
        S = np.cov(a.T).reshape(k, k)
        check(np.allclose(np.array(got["m"]), S, 1e-9, 1e-9), "covariances %s, expected %s", got["m"], S.tolist())
        cov = page(e, "<Covariance>")
        check(cov is not None and np.allclose(np.array(cov["m"]), S / rows, 1e-9, 1e-9), "covariance of the means %s, expected %s", cov and cov["m"], (S / rows).tolist())
        n2 = rows
    else:
        N = a.sum() / rows
        want = [N] + list(a.sum(axis=0)[1:] / a.sum())
        for g, w in zip(got["v"], want):
            near(g, float(w), "%s from %s" % (kind, m), 1e-10, 1e-12)
        eq(got["n"]["r"], ["n"] + ["p%i" % i for i in range(1, k)], "names")
        n2 = 1
        eq(L.ip_sh_dsize(e), 1 if kind == "binomial" else k, "size of a draw")
    ll = info(e, "log likelihood")
    near(ll, L.dpp_apop_log_likelihood(d, e), "reported log likelihood", 1e-9, 1e-9)
    d2 = L.ppp_sh_data_of(None, mat([m[i] for i in c["perm"]]))
    e2 = L.ppp_apop_estimate(d2, base)
    g2 = dump(L.pp_sh_params(e2))
    check(np.allclose(np.array(g2["v"]), np.array(got["v"]), 1e-9, 1e-9), "estimates of the rows in another order: %s and %s", g2["v"], got["v"])
    near(info(e2, "log likelihood"), ll, "log likelihood of the rows in another order", 1e-8, 1e-8)
    if kind != "mvn":
        p = [1 - sum(got["v"][1:])] + got["v"][1:]
        for i in range(k):
            for j in range(k):
                if i != j and p[i] > .01:
                    q = list(p)
                    q[i] -= .005
                    q[j] += .005
                    o = L.dpp_apop_log_likelihood(d, L.ppiiiiiPP_sh_model(base, k, 0, 0, k, 0, [got["v"][0]] + q[1:], []))
                    check(o <= ll + 1e-9 * (1 + abs(ll)), "%s %s: log likelihood %s at the estimate, %s at %s", kind, m, ll, o, q)
    return [kind] + (["nt"] if rows > 1 else [])


FACETS = [Facet("closed", lambda tier: closed_c(), run_closed, quick=500), Facet("rows", lambda tier: multi_c(), run_multi, quick=400)]


METHODS = ["", "NM simplex", "FR cg", "BFGS cg", "PR cg", "Newton", "Newton hybrid", "Newton hybrid no scale", "nm SIMPLEX", "pr CG"]


def qp(A, top, G_, h):
    """the highest admissible point of the quadratic: every choice of constraints held with equality"""
    import itertools
    k = len(top)
    best = None
    for r in range(0, min(k, len(h)) + 1):
        for S in itertools.combinations(range(len(h)), r):
            if S:
                C_ = G_[list(S)]
                K = np.block([[A, -C_.T], [C_, np.zeros((r, r))]])
                if abs(np.linalg.det(K)) < 1e-9:
                    continue
                x = np.linalg.solve(K, np.concatenate([A @ top, h[list(S)]]))[:k]
            else:
                x = top
            if np.all(G_ @ x >= h - 1e-9):
                g = .5 * (x - top) @ A @ (x - top)
                if best is None or g < best[0]:
                    best = (g, x)
    return best


@st.composite
def quad_c(draw):
    v, m1, m2 = draw(st.sampled_from([(1, 0, 0), (2, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1, 2), (1, 1, 1), (0, 2, 1), (2, 1, 1)]))
    method = draw(st.sampled_from(METHODS + ["Annealing"]))
    wide = method.lower()[-2:] == "cg" and draw(st.integers(0, 2)) == 0
    if wide:
        v, m1, m2 = draw(st.sampled_from([(9, 0, 0), (12, 0, 0), (0, 3, 4), (5, 2, 3)]))
    k = v + m1 * m2
    B = draw(G.matrix(k, k, st.sampled_from([0, 0, 0, .3, -.3] if wide else [0, 0, 1, -1, .5, 2])))
    want = draw(st.sampled_from([None, None, "i", "ic", "c", "", "t", "ict", "it"]))
    kind = draw(st.sampled_from("lssp")) if method in ("", "NM simplex", "nm SIMPLEX") else draw(st.sampled_from("lss"))
    return {"sz": [v, m1, m2], "B": B, "diag": [draw(st.sampled_from([.5, 1, 1, 3])) for _ in range(k)], "top": [draw(FREE(-6, 6)) for _ in range(k)], "kind": kind, "base": draw(st.sampled_from([0.0, -40.0, 35.0])),
            "start": draw(st.one_of(st.none(), st.lists(FREE(-5, 5), min_size=k, max_size=k))), "method": method, "want": want,
            "cycle": 0 if want and "t" in want else draw(st.sampled_from([0, 0, 0, .01])), "path": draw(st.booleans()), "maxit": draw(st.sampled_from([0, 0, 0, 3])), "data": draw(st.booleans())}


def run_quad(c):
    v, m1, m2 = c["sz"]
    k, meth, kind, cyc = len(c["top"]), c["method"].lower(), c["kind"], c["cycle"]
    A = np.array(c["B"]).reshape(k, k)
    A = A @ A.T + np.diag(c["diag"])
    top = np.array(c["top"])
    q = L.ppp_sh_data_of(vec(c["top"]), mat(A.tolist()))
    m0 = L.pciiipdpd_sh_quad(kind, v, m1, m2, q, c["base"], None, 0.0)
    m = L.ppsddiiPdis_sh_mle(m0, c["method"], 0, 0, c["maxit"], k if c["start"] else 0, c["start"] or [], cyc, 0, c["want"])
    if c["want"] and "t" in c["want"]:
        L.vp_sh_quad_pm(m)
    haspath = c["path"] and not cyc
    if haspath:
        L.vp_sh_path(m)
    d = vec_d([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]) if c["data"] else None
    before, mb = dump(d), state(m)
    e = L.ppp_apop_estimate(d, m)
    eq(L.pp_sh_data_ptr(e), d, "the data of the estimated model")
    eq(dump(d), before, "the data after estimation")
    eq(state(m), mb, "the model handed to apop_estimate")
    eq(state(e)["mle"][3:], mb["mle"][3:], "cycle tolerance and starting point in the settings of the estimated model")
    p = dump(L.pp_sh_params(e))
    eq([len(p["v"] or []), len(p["m"] or []), len((p["m"] or [[]])[0])], [v, m1 if m2 else 0, m2 if m1 else 0], "sizes of the parameters")
    x = np.array((p["v"] or []) + [y for r in p["m"] or [] for y in r])
    ht = lambda x: c["base"] - .5 * (x - top) @ A @ (x - top)
    ll = ht(x)
    near(L.dpp_apop_log_likelihood(d, e), ll, "log likelihood at the estimate", 1e-9, 1e-9)
    n, want = 7, c["want"]
    if want is None or "i" in want:
        near(info(e, "log likelihood"), ll, "log likelihood reported by %r" % c["method"], 1e-9, 1e-9)
        near(info(e, "AIC"), 2 * k - 2 * ll, "AIC", 1e-9, 1e-9)
        if d:
            near(info(e, "BIC"), k * math.log(n) - 2 * ll, "BIC", 1e-9, 1e-9)
            near(info(e, "AIC_c"), 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1), "AIC_c", 1e-9, 1e-9)
        else:
            eq(info(e, "BIC"), None, "BIC without data")
    else:
        eq(info(e, "AIC"), None, "AIC when not asked for")
    if want and ("c" in want or "t" in want):
        cov = page(e, "<Covariance>")
        check(kind == "p" or cov is not None and np.allclose(np.array(cov["m"]), np.linalg.inv(A), 1e-4, 1e-5), "covariance of the parameters: %s, expected %s", cov and cov["m"], np.linalg.inv(A).tolist())
    else:
        eq(page(e, "<Covariance>"), None, "covariance when not asked for")
    tests = infopage(e, "<test info>")
    if want and "t" in want and d:
        check(tests is not None and len(tests["m"]) == k and tests["n"]["c"] == ["p value", "confidence"], "the tests of the parameters: %s", tests)
        near(info(e, "df"), max(n - k, 1), "df", 1e-12, 0)
        for i in range(k if kind != "p" else 0):
            pv = math.erfc(abs(x[i]) / math.sqrt(cov["m"][i][i]) / math.sqrt(2))
            near(tests["m"][i][0], pv, "p value of parameter %d" % i, 1e-6, 1e-9)
            near(tests["m"][i][1], 1 - pv, "confidence of parameter %d" % i, 1e-6, 1e-9)
    else:
        eq(tests, None, "tests when not asked for")
    status = info(e, "status")
    check(status in (0, -1), "status %s", status)
    st0 = np.array(c["start"] or [1.0] * k)
    gap = c["base"] - ll
    if status == 0 and meth != "annealing":
        lim = 1e-6 * (1 + c["base"] - ht(st0) if kind == "p" else 1) if not cyc else 1e-4 + cyc * 4 * k * np.linalg.cond(A)
        check(gap <= lim, "%r from %s: reported success at %s, where the log likelihood is %s; it is %s at %s", c["method"], list(st0), list(x), ll, c["base"], c["top"])
    if "newton" not in meth:
        check(ll >= ht(st0) - 1e-9 * (1 + abs(ht(st0))), "%r ended at %s, lower than where it started: %s, %s", c["method"], list(x), ll, ht(st0))
    if not c["maxit"] and not cyc and "newton" not in meth:
        eq(status, 0, "status of a search over a quadratic by %r" % c["method"])
    labels = [meth or "default", kind, "cycle" if cyc else "direct"]
    if haspath and meth != "annealing":
        t = dump(L.p_sh_path_get())
        rows = t["m"]
        check(rows and len(rows) == len(t["v"]), "the path has %s points and %s values", rows and len(rows), t["v"] and len(t["v"]))
        for r, f in zip(rows, t["v"]):
            y = ht(np.array(r))
            near(f, math.exp(y) if kind == "p" else y, "value in the path at %s" % r, 1e-9, 1e-9)
            if "newton" not in meth and (status == 0 or "cg" in meth):
                check(y <= ll + 1e-6 * (1 + abs(ll)), "the search tried %s, at %s, and returned %s, at %s", r, y, list(x), ll)
        labels.append("path")
    return labels + (["nt"] if np.max(np.abs(st0 - top)) > .1 else [])


@st.composite
def bound_c(draw):
    k = draw(st.integers(1, 3))
    B = [[draw(st.sampled_from([0, 0, 1, -1, .5])) for _ in range(k)] for _ in range(k)]
    top = [draw(FREE(-6, 6)) for _ in range(k)]
    inside = [draw(FREE(-5, 5)) for _ in range(k)]
    cons = []
    if draw(st.booleans()):     # a box on some sides
        for i in range(k):
            for s in (1, -1):
                if draw(st.booleans()):
                    g = [0.0] * k
                    g[i] = float(s)
                    cons.append(g + [s * inside[i] - draw(st.floats(.3, 4).map(lambda x: round(x, 3)))])
    if not cons:
        g = draw(st.lists(st.sampled_from([1.0, -1.0, 0.0, 2.0, .5]), min_size=k, max_size=k).filter(any))
        cons.append(g + [sum(a * b for a, b in zip(g, inside)) - draw(st.floats(.3, 4).map(lambda x: round(x, 3)))])
    return {"B": B, "diag": [draw(st.sampled_from([.5, 1, 1, 3])) for _ in range(k)], "top": top, "in": inside, "cons": cons, "kind": draw(st.sampled_from("lss")), "method": draw(st.sampled_from(METHODS[:6] + ["Annealing", "annealing"])), "margin": draw(st.sampled_from([0.0, 1e-4, 1e-2]))}


def run_bound(c):
    k, meth = len(c["top"]), c["method"].lower()
    A = np.array(c["B"]).reshape(k, k)
    A = A @ A.T + np.diag(c["diag"])
    top = np.array(c["top"])
    G_, h = np.array([r[:-1] for r in c["cons"]]), np.array([r[-1] for r in c["cons"]])
    q = L.ppp_sh_data_of(vec(c["top"]), mat(A.tolist()))
    con = L.ppp_sh_data_of(vec(list(h)), mat(G_.tolist()))
    m = L.ppsddiiPdis_sh_mle(L.pciiipdpd_sh_quad(c["kind"], k, 0, 0, q, 0.0, con, c["margin"]), c["method"], 0, 0, 0, k, c["in"], 0, 0, None)
    e = L.ppp_apop_estimate(None, m)
    x = np.array(dump(L.pp_sh_params(e))["v"])
    ht = lambda x: -.5 * (x - top) @ A @ (x - top)
    g, best = qp(A, top, G_, h)
    active = g > 1e-9
    status, ll = info(e, "status"), info(e, "log likelihood")
    near(ll, ht(x), "log likelihood reported by %r" % c["method"], 1e-9, 1e-9)
    check("newton" in meth and status == -1 or np.max(h - G_ @ x) <= 1e-9 * (1 + np.max(np.abs(h))), "%r ended at %s, outside of its constraints %s", c["method"], list(x), c["cons"])
    check("newton" in meth and status == -1 or -g - ll >= -1e-7 * (1 + g), "the log likelihood reported for %s is %s, above the highest admissible one, %s", list(x), ll, -g)
    s0 = np.array(c["in"])
    if "newton" not in meth:
        check(ll >= ht(s0) - 1e-9 * (1 + abs(ht(s0))), "%r ended at %s, lower than where it started: %s, %s", c["method"], list(x), ll, ht(s0))
    check(status in (0, -1), "status %s", status)
    return [meth or "default", "active" if active else "slack", "status %g" % status, "nt"]


@st.composite
def mle_c(draw):
    name = draw(st.sampled_from(["normal", "lognormal", "exponential", "poisson", "gamma", "beta", "bernoulli", "zipf", "yule", "t"]))
    x = draw(st.lists(VALS[name], min_size=4, max_size=14).filter(lambda x: len({y != 0 for y in x} if name == "bernoulli" else set(x)) > 1))
    return {"n": name, "x": x, "method": draw(st.sampled_from(METHODS)), "how": draw(st.sampled_from("vVmMb")), "start": draw(st.floats(.5, 1.6).map(lambda x: round(x, 2)))}


def top(name, x):
    x = np.asarray(x)
    from scipy import optimize
    if name in ("normal", "lognormal"):
        y = x if name == "normal" else np.log(x)
        return [y.mean(), y.std()]
    if name in ("exponential", "poisson"):
        return [x.mean()]
    if name == "bernoulli":
        return [(x != 0).mean()]
    f = MODELS[name].ll
    obj = lambda p: -sum(f(y, list(p)) for y in x)
    if name in ("zipf", "yule"):
        r = optimize.minimize_scalar(lambda q: obj([q]), bounds=(1 + 1e-6, 50), method="bounded", options={"xatol": 1e-10})
        return [r.x]
    if name == "gamma":
        r = optimize.minimize_scalar(lambda la: obj([math.exp(la), x.mean() / math.exp(la)]), bounds=(-5, 12), method="bounded", options={"xatol": 1e-10})
        a = math.exp(r.x)
        return [a, x.mean() / a]
    if name == "beta":
        r = optimize.minimize(lambda q: obj(np.exp(q)), [0, 0], method="Nelder-Mead", options={"xatol": 1e-8, "fatol": 1e-10, "maxiter": 4000})
        return list(np.exp(r.x))
    return [x.mean(), x.std(), 5.0]


def run_mle(c):
    name, x = c["n"], c["x"]
    t = top(name, x)
    start = [y * c["start"] for y in t]
    if name == "bernoulli":
        start = [min(max(start[0], .05), .95)]
    if name in ("zipf", "yule"):
        start = [max(start[0], 1.2)]
    m = L.ppsddiiPdis_sh_mle(var(MODELS[name].c), c["method"], 0, 0, 0, len(t), start, 0, 1, None)
    d = C20.layout(x, c["how"], 1)
    e = L.ppp_apop_estimate(d, m)
    eq(L.pp_sh_data_ptr(e), d, "the data of the estimated model")
    meth, status, ll = c["method"].lower(), info(e, "status"), info(e, "log likelihood")
    p = dump(L.pp_sh_params(e))["v"]
    f = MODELS[name].ll
    lt = lambda q: sum(f(y, list(q)) for y in x)
    check(all(math.isfinite(y) for y in p + [ll]), "%r ended at %s, log likelihood %s", c["method"], p, ll)
    near(ll, L.dpp_apop_log_likelihood(d, e), "reported log likelihood", 1e-9, 1e-9)
    near(ll, lt(p), "log likelihood of %s at %s" % (name, p), 1e-7, 1e-7)
    s0 = lt(start)
    if "newton" not in meth:
        check(ll >= s0 - 1e-9 * (1 + abs(s0)), "%r ended at %s, lower than where it started: %s, %s", c["method"], p, ll, s0)
    check(status in (0, -1), "status %s", status)
    if name != "t" and "newton" not in meth and status == 0:
        lim = 1e-5 * (1 + abs(s0 - lt(t))) if name != "bernoulli" else .02
        check(lt(t) - ll <= lim, "%s of %s by %r from %s: reported success at %s, log likelihood %s; it is %s at %s", name, x, c["method"], start, p, ll, lt(t), t)
    if "newton" not in meth and name not in ("t", "bernoulli"):
        eq(status, 0, "status of estimating %s by %r" % (name, c["method"]))
    if (name == "t" or "newton" in meth) and status == 0:
        for k in range(len(p)):
            for h in (.02, -.02):
                o = list(p)
                o[k] += h * max(abs(o[k]), .1)
                if not (any(y <= 0 for y in o[name in ("t", "normal", "lognormal"):]) or name == "bernoulli" and o[0] >= 1 or name in ("zipf", "yule") and o[0] <= 1):
                    check(lt(o) <= ll + .05 * (1 + abs(ll)), name + ": log likelihood %s at %s, and %s at %s", ll, p, lt(o), o)
    return [name, meth or "default", "status %g" % status, "nt"]


FACETS += [Facet("quad", lambda tier: quad_c(), run_quad, quick=800), Facet("bound", lambda tier: bound_c(), run_bound, quick=800), Facet("mle", lambda tier: mle_c(), run_mle, quick=800)]


@st.composite
def restart_c(draw):
    k = draw(st.integers(1, 3))
    return {"B": [[draw(st.sampled_from([0, 0, 1, -1, .5, 2])) for _ in range(k)] for _ in range(k)], "diag": [draw(st.sampled_from([.5, 1, 1, 3])) for _ in range(k)], "top": [draw(FREE(-6, 6)) for _ in range(k)],
            "base": draw(st.sampled_from([0.0, -40.0])), "start": draw(st.one_of(st.none(), st.lists(FREE(-5, 5), min_size=k, max_size=k))), "method": draw(st.sampled_from(METHODS[:5])), "maxit": draw(st.sampled_from([1, 2, 3])),
            "steps": draw(st.lists(st.tuples(st.sampled_from(["self", "self", "other", "wide"]), st.sampled_from(METHODS[:5]), st.sampled_from([None, "ep", "es", "ns"]), st.sampled_from([0, 0, 2, 0]), st.lists(FREE(-5, 5), min_size=k, max_size=k), st.sampled_from([1e8, 1e8, 4.0])), min_size=1, max_size=4))}


def run_restart(c):
    k = len(c["top"])
    A = np.array(c["B"]).reshape(k, k)
    A = A @ A.T + np.diag(c["diag"])
    top = np.array(c["top"])
    ht = lambda x: c["base"] - .5 * (np.array(x) - top) @ A @ (np.array(x) - top)
    q = L.ppp_sh_data_of(vec(c["top"]), mat(A.tolist()))
    m0 = L.pciiipdpd_sh_quad("l", k, 0, 0, q, c["base"], None, 0.0)
    m = L.ppsddiiPdis_sh_mle(m0, c["method"], 0, 0, c["maxit"], k if c["start"] else 0, c["start"] or [], 0, 0, None)
    d = vec_d([1.0, 2.0])
    e = L.ppp_apop_estimate(d, m)
    x = dump(L.pp_sh_params(e))["v"]
    first = c["start"] or [1.0] * k
    labels, rose, estart = [], 0, first
    for who, meth, frm, maxit, start, bound in c["steps"]:
        before = ht(x)
        copy = None
        if who != "self":
            copy = L.ppsddiiPdis_sh_mle(m0, meth, 0, 0, maxit, k, start, 0, 0, None)
        frm_ = frm or "ep"
        # the point the search is to start from
        s = {"ep": x, "es": estart, "ns": start if copy else estart}[frm_]
        r = L.pppsd_sh_restart(e, copy, frm_, bound)
        y = dump(L.pp_sh_params(r))["v"]
        if max(abs(t) for t in s) > bound:
            eq(y, x, "the estimate after asking to start from %s, outside of the bound %s" % (s, bound))
            labels.append("out of bounds")
            eq(r, e, "the model returned")
            continue
        check(ht(y) >= before - 1e-12 * (1 + abs(before)), "restarting from %s (%s) by %r went from log likelihood %s to %s", s, frm_, meth, before, ht(y))
        near(L.dpp_apop_log_likelihood(d, r), ht(y), "log likelihood after the restart", 1e-9, 1e-9)
        near(info(r, "log likelihood"), ht(y), "log likelihood reported after the restart", 1e-9, 1e-9)
        near(info(r, "AIC"), 2 * k - 2 * ht(y), "AIC reported after the restart", 1e-9, 1e-9)
        if max(abs(t) for t in y) <= bound and (bound > 10):
            check(ht(y) >= ht(s) - 1e-9 * (1 + abs(ht(s))), "restarting from %s, with log likelihood %s, gave %s, at %s", s, ht(s), y, ht(y))
            if copy and not maxit:
                near(ht(y), c["base"], "log likelihood after a full search", 0, 1e-5)
                labels.append("full")
        rose += ht(y) > before + 1e-6
        if r != e:
            estart = s
        e, x = r, y
        labels.append(who)
        labels.append(frm_)
    return labels + (["nt"] if rose else [])


FACETS.append(Facet("restart", lambda tier: restart_c(), run_restart, quick=300))


@st.composite
def ann_c(draw):
    k = draw(st.sampled_from([1, 1, 2, 3]))
    B = [[draw(st.sampled_from([0, 0, 1, -1, .5])) for _ in range(k)] for _ in range(k)]
    start = draw(st.one_of(st.none(), st.lists(st.one_of(FREE(.2, 4), FREE(-4, -.2), st.just(0.0)), min_size=k, max_size=k)))
    return {"B": B, "diag": [draw(st.sampled_from([.5, 1, 3, 20])) for _ in range(k)], "top": [draw(FREE(-6, 6)) for _ in range(k)], "start": start, "step": draw(st.sampled_from([.3, .5, 1.0, .2])), "method": draw(st.sampled_from(["annealing", "Annealing"])),
            "how": [draw(st.sampled_from([0, 0, 20.0])), draw(st.sampled_from([0, 0, .1])), draw(st.sampled_from([0, 0, 1.005])), draw(st.sampled_from([0, 0, 9]))]}


def run_ann(c):
    """annealing moves from the start by steps whose sizes, over the sizes of the start's elements, add up to the step size; it returns the highest point it met"""
    k = len(c["top"])
    A = np.array(c["B"]).reshape(k, k)
    A = A @ A.T + np.diag(c["diag"])
    top = np.array(c["top"])
    s = np.array(c["start"] or [1.0] * k)
    scale = np.where(s == 0, 1, np.abs(s))
    q = L.ppp_sh_data_of(vec(c["top"]), mat(A.tolist()))
    m = L.ppsddiiPdis_sh_mle(L.pciiipdpd_sh_quad("l", k, 0, 0, q, 0.0, None, 0.0), c["method"], c["step"], 0, 0, k if c["start"] else 0, c["start"] or [], 0, 0, None)
    L.vpdddi_sh_anneal(m, *c["how"])
    e = L.ppp_apop_estimate(None, m)
    x = np.array(dump(L.pp_sh_params(e))["v"])
    ht = lambda x: -.5 * (x - top) @ A @ (x - top)
    near(info(e, "log likelihood"), ht(x), "log likelihood reported", 1e-9, 1e-9)
    eq(info(e, "status"), 0, "status")
    check(ht(x) >= ht(s) - 1e-9 * (1 + abs(ht(s))), "annealing ended at %s, lower than where it started: %s, %s", list(x), ht(x), ht(s))
    gap = -ht(x)
    if k == 1:      # every step is of the one size, so the places it can reach are known
        h = c["step"] * scale[0]
        n = (x[0] - s[0]) / h
        check(abs(n - round(n)) <= 1e-6, "annealing moved from %s to %s, not a whole number of steps of %s", s[0], x[0], h)
        check(gap <= A[0, 0] * h * h / 8 * (1 + 1e-6) + 1e-9, "annealing by steps of %s from %s ended at %s, short of the top, %s", h, s[0], x[0], top[0])
    else:
        check(gap <= max(1, -.25 * ht(s)), "annealing from %s ended at %s, at %s; the top, at 0, is %s", list(s), list(x), ht(x), list(top))
    return [str(k), "nt"]


FACETS.append(Facet("anneal", lambda tier: ann_c(), run_ann, quick=60))


# ------------------------------------------------------------ expected values
@st.composite
def pred_c(draw):
    n = draw(st.integers(2, 12))
    return {"x": [draw(FREE(-50, 50)) for _ in range(n)], "m": draw(st.booleans()), "copy": draw(st.booleans()), "set": draw(st.one_of(st.none(), FREE(-9, 9))), "log": draw(st.booleans()), "null": draw(st.booleans())}


def run_pred(c):
    x = c["x"]
    if c["log"]:
        x = [.1 + abs(v) for v in x]
    d = vec_d(x) if not c["m"] else mk({"m": [[v] for v in x]})
    e = L.ppp_apop_estimate(d, var("apop_lognormal" if c["log"] else "apop_normal"))
    if c["copy"]:
        e = L.pp_apop_model_copy(e)
    mu, sd = dump(L.pp_sh_params(e))["v"]
    if c["set"] is not None:
        mu, sd = c["set"], 2.5
        L.vpiP_sh_fill(L.pp_sh_params(e), 2, [mu, sd])
    before = state(e)
    p = dump(L.ppp_apop_predict(None if c["null"] else d, e))
    if c["log"]:
        near(p["m"], [[math.exp(mu + sd * sd / 2)]], "expected value", 1e-12, 0)
        eq(state(e), before, "the model after predicting")
        return ["lognormal"] + (["nt"] if len(set(x)) > 1 else [])
    near(p["m"], [[mu]], "expected value", 0, 0)
    check(p["more"] and p["more"]["n"]["title"] == "<Covariance>", "no page for the covariance of the mean")
    near(p["more"]["m"], [[sd * sd / len(x)]], "covariance of the mean", 1e-12, 0)
    eq(state(e), before, "the model after predicting")
    return ["nt"] if len(set(x)) > 1 else []


FACETS.append(Facet("expected", lambda tier: pred_c(), run_pred, quick=300))
