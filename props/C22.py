"""Random draws: support, distribution, determinism, shape."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy import stats, special
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD
from models import MODELS, INF
import props.C20 as C20

RULE = ("1,000 to 4,000 draws each from eleven univariate distributions, binomial, multinomial, Dirichlet and multivariate Normal models of 1 to 5 dimensions, kernel densities over 1 to 8 weighted points in vectors and matrices, and adaptive rejection sampling of six densities over chosen and default intervals and starting points, "
        "with admissible parameters and any seed, from a model and from its copy; requests for 0 to 300 rows of draws, the default number, and given matrices with spare columns or inside bigger ones; with one thread and with four. "
        "Non-trivial: a distribution compared with its theory on at least 1,000 draws, or a request for rows with more than one row. Distinct by the whole case.")
ASSUMPTIONS = ["the distance between empirical and exact CDF is held to the Dvoretzky-Kiefer-Wolfowitz bound at probability 1e-11 per comparison", "draws are made with a generator of fixed seed, except in requests for rows, where the library's own generators are used",
               "adaptive rejection sampling is compared on log-concave densities, where its draws are independent, over the interval it is given or documented to choose", "chains of dependent draws (Metropolis) are compared with a wide tolerance on mean and spread"]


def dkw(n):
    return math.sqrt(math.log(2e11) / (2 * n))


def ks(x, F, what, disc=False, n=None):
    """compare the empirical CDF with F (vectorised)"""
    x = np.sort(np.asarray(x))
    u, first = np.unique(x, return_index=True)
    last = np.append(first[1:], len(x))
    f = F(u)
    g = F(u - 1) if disc == "int" else F(np.nextafter(u, -INF)) if disc else f
    d = max(np.max(np.abs(last / len(x) - f)), np.max(np.abs(first / len(x) - g)))
    lim = dkw(n or len(x)) + 1e-7
    if d > lim:
        i = int(np.argmax(np.abs(last / len(x) - f)))
        raise Bad("%s: the draws' CDF is %.4f away from the model's (bound %.4f), as at %r: %.4f of %i draws at or below, expected %.4f; mean of the draws %g" % (what, d, lim, float(u[i]), last[i] / len(x), len(x), float(f[i]), float(np.mean(x))))


def take(m, n, w, seed, what):
    """draws of width w, checked for failures and unset elements"""
    a = arr(L.ppiii_sh_draws(m, n, w, seed))
    check(not np.any(a[:, w]), "%s: a draw reported failure", what)
    a = a[:, :w]
    check(np.all(np.isfinite(a)), "%s: draws are not finite", what)
    check(not np.any(a == -12321), "%s: an element of a draw was not set", what)
    return a


@st.composite
def uni_c(draw):
    name = draw(st.sampled_from(sorted(MODELS) + ["binomial"]))
    p = [float(draw(st.integers(1, 60))), draw(st.one_of(MD.U01, st.sampled_from([0.0, 0.5, 1.0])))] if name == "binomial" else list(draw(MODELS[name].params))
    if name == "beta":      # a small second shape puts mass closer to one than doubles can tell
        p[1] = max(p[1], .4)
    return {"n": name, "p": p, "seed": draw(st.integers(0, 10**6)), "k": draw(st.sampled_from([1000, 2000, 4000])), "copy": draw(st.booleans())}


def run_uni(c):
    name, p, n = c["n"], c["p"], c["k"]
    what = "%s%s" % (name, p)
    m = L.ppiP_sh_set_params(var("apop_binomial"), 2, p) if name == "binomial" else MD.model(name, p)
    eq(L.ip_sh_dsize(m), 1, "size of a draw from " + what)
    if c["copy"]:
        m2 = m
        m = L.pp_apop_model_copy(m2)
        L.vp_apop_model_free(m2)
    x = take(m, n, 1, c["seed"], what)[:, 0]
    y = take(L.pp_apop_model_copy(m), 200, 1, c["seed"], what)[:, 0]
    check(np.array_equal(x[:200], y), "%s: the copy's draws from the same seed differ: %s, %s", what, list(x[:3]), list(y[:3]))
    y = take(m, 200, 1, c["seed"], what)[:, 0]
    check(np.array_equal(x[:200], y), "%s: the draws from the same seed differ the second time", what)
    eq(norm(dump(L.pp_sh_params(m)))["v"], p, "parameters after drawing")
    if name == "binomial":
        check(np.all((x >= 0) & (x <= p[0]) & (x == np.floor(x))), "%s: draws outside the support", what)
        ks(x, lambda u: stats.binom.cdf(u, int(p[0]), p[1]), what, "int")
        return [name, "nt"]
    M = MODELS[name]
    lo, hi = {"lognormal": (0, INF), "exponential": (0, INF), "gamma": (0, INF), "beta": (0, 1), "uniform": p + [0], "bernoulli": (0, 1), "poisson": (0, INF), "zipf": (1, INF), "yule": (1, INF)}.get(name, (-INF, INF))[:2]
    check(np.all((x >= lo) & (x <= hi)), "%s: draws outside the support: %s to %s", what, x.min(), x.max())
    if M.disc:
        check(np.all(x == np.floor(x)), "%s: draws that are not whole numbers", what)
    d = M.dist(p)
    if name == "zipf":      # scipy's CDF sums: use what it can
        cut = 3000
        pm = np.cumsum(np.arange(1, cut + 1.0) ** -p[0]) / special.zeta(p[0])
        ks(np.minimum(x, cut + 1), lambda u: np.where(u > cut, 1.0, np.where(u < 1, 0, pm[np.clip(np.floor(u), 1, cut).astype(int) - 1])), what, "int")
    elif name in ("gamma", "beta"):     # tiny shapes underflow to an atom at the edge
        ks(x, d.cdf, what, True)
    else:
        ks(x, d.cdf, what, "int" if M.disc else False)
    if c["seed"] % 4 == 0:
        z = take(m, 300, 1, -1, what)[:, 0]
        check(np.all((z >= lo) & (z <= hi)), "%s: draws with the default generator outside the support", what)
    return [name, "nt"]


@st.composite
def multi_c(draw):
    kind = draw(st.sampled_from(["multinomial", "multinomial", "dirichlet", "mvn", "mvn"]))
    k = draw(st.integers(2, 5)) if kind != "mvn" else draw(st.integers(1, 4))
    c = {"k": kind, "seed": draw(st.integers(0, 10**6)), "n": draw(st.sampled_from([1000, 2000])), "mix": [draw(st.sampled_from([0.0, 1.0, 1.0, -1.0, 2.0])) for _ in range(k)]}
    if kind == "multinomial":
        w = draw(st.lists(st.integers(0, 9), min_size=k, max_size=k).filter(lambda w: sum(w) > 0))
        c["p"] = [float(draw(st.one_of(st.integers(1, 6), st.integers(1, 60))))] + [x / sum(w) for x in w[1:]]
        c["p0"] = w[0] / sum(w)
    elif kind == "dirichlet":
        c["p"] = [draw(st.floats(.2, 8).map(lambda x: round(x, 3))) for _ in range(k)]
    else:
        c["p"] = [draw(MD.MU) for _ in range(k)]
        a = np.array([[draw(st.floats(-2, 2).map(lambda x: round(x, 2))) for _ in range(k)] for _ in range(k)])
        c["S"] = [[float(round(y, 10)) for y in r] for r in a @ a.T + np.diag([draw(st.sampled_from([.05, 1.0, 3.0])) for _ in range(k)])]
    return c


def run_multi(c):
    k, n, p, kind = len(c["p"]), c["n"], c["p"], c["k"]
    what = "%s%s" % (kind, p)
    m = L.ppiiiiiPP_sh_model(var("apop_" + {"mvn": "multivariate_normal"}.get(kind, kind)), k, k if kind == "mvn" else 0, k if kind == "mvn" else 0, k, 0, p, [y for r in c.get("S", []) for y in r])
    x = take(m, n, k, c["seed"], what)
    y = take(L.pp_apop_model_copy(m), 100, k, c["seed"], what)
    check(np.array_equal(x[:100], y), "%s: the copy's draws from the same seed differ", what)
    eq(norm(dump(L.pp_sh_params(m)))["v"], p, "parameters after drawing")
    if kind == "multinomial":
        N = int(p[0])
        pr = [c["p0"]] + p[1:]
        check(np.all(x == np.floor(x)) and np.all(x >= 0) and np.all(x.sum(axis=1) == N), "%s: a draw is not a division of %i into bins", what, N)
        for i in range(k):
            ks(x[:, i], lambda u: stats.binom.cdf(u, N, pr[i]), "%s bin %i" % (what, i), "int")
        s = [i for i in range(k) if c["mix"][i] == 1]
        if s:
            ks(x[:, s].sum(axis=1), lambda u: stats.binom.cdf(u, N, min(1.0, sum(pr[i] for i in s))), "%s bins %s together" % (what, s), "int")
    elif kind == "dirichlet":
        check(np.all(x >= 0) and np.all(np.abs(x.sum(axis=1) - 1) < 1e-9), "%s: a draw does not sum to one", what)
        s = [i for i in range(k) if c["mix"][i] == 1]
        for i in range(k):
            ks(x[:, i], stats.beta(p[i], sum(p) - p[i]).cdf, "%s element %i" % (what, i), True)
        if s and len(s) < k:
            a = sum(p[i] for i in s)
            ks(x[:, s].sum(axis=1), stats.beta(a, sum(p) - a).cdf, "%s elements %s together" % (what, s), True)
    else:
        S = np.array(c["S"])
        for i in range(k):
            ks(x[:, i], stats.norm(p[i], math.sqrt(S[i, i])).cdf, "%s element %i" % (what, i))
        w = np.array(c["mix"])
        if np.any(w):
            ks(x @ w, stats.norm(w @ np.array(p), math.sqrt(w @ S @ w)).cdf, "%s combined by %s" % (what, list(w)))
    return [kind, "nt"]


@st.composite
def kde_c(draw):
    n = draw(st.integers(1, 8))
    pts = [draw(st.floats(-8, 8).map(lambda x: round(x, 2))) for _ in range(n)]
    w = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 1.0, 1.0, 2.5, 10.0]), min_size=n, max_size=n).filter(lambda w: sum(w) > 0)))
    kern = draw(st.sampled_from(["d", "n", "u"]))
    how = draw(st.sampled_from("dep" if kern == "d" else "dp"))
    return {"pts": pts, "w": w, "kern": kern, "wd": 1.0 if kern == "d" else draw(st.sampled_from([.25, 1.0, 3.0])), "how": how, "lay": "m" if kern == "d" and how != "d" and False else draw(st.sampled_from("vm")),
            "seed": draw(st.integers(0, 10**6)), "n": 2000}


def run_kde(c):
    d = {"v": c["pts"]} if c["lay"] == "v" else {"m": [[y] for y in c["pts"]]}
    if c["w"]:
        d["w"] = c["w"]
    m = L.ppccd_sh_kde(mk(d), c["how"], {"d": "\0"}.get(c["kern"], c["kern"]), c["wd"])
    w = np.array(c["w"] or [1.0] * len(c["pts"]))
    w = w / w.sum()
    x = take(m, c["n"], 1, c["seed"], "kernel density")[:, 0]
    dist = [stats.uniform(y - c["wd"] / 2, c["wd"]) if c["kern"] == "u" else stats.norm(y, c["wd"]) for y in c["pts"]]
    ks(x, lambda u: sum(a * b.cdf(u) for a, b in zip(w, dist)), "kernel density over %s with weights %s" % (c["pts"], c["w"]))
    y = take(m, 100, 1, c["seed"], "kernel density")[:, 0]
    check(np.allclose(x[:100], y, 0, 1e-9), "kernel density: draws from the same seed differ")
    return [c["kern"], c["lay"]] + (["nt"] if len(set(c["pts"])) > 1 else [])


# ------------------------------------------------------------ adaptive rejection
@st.composite
def arms_c(draw):
    name = draw(st.sampled_from(["normal", "normal", "gamma", "beta", "exponential", "uniform", "logistic"][:6]))
    f = lambda lo, hi: draw(st.floats(lo, hi).map(lambda x: round(x, 3)))
    how = draw(st.sampled_from(["default", "bounds", "bounds", "points"])) if name == "normal" else "bounds"
    if name == "normal":
        p = [f(-2, 2), f(.3, 2)]
        b = [p[0] + p[1] * f(-4, 0.5), 0]
        b[1] = b[0] + p[1] * f(.5, 6)
        if draw(st.integers(0, 3)) == 0:
            b[0] = 0.0
            b[1] = max(b[1], .5)
    elif name == "gamma":
        p = [f(1.05, 8), f(.3, 3)]
        b = [draw(st.sampled_from([0.0, 0.01, .5])), p[1] * (p[0] + f(2, 20))]
    elif name == "beta":
        p = [f(1.05, 8), f(1.05, 8)]
        b = [draw(st.sampled_from([0.0, .01, .3])), draw(st.sampled_from([1.0, .99, .7]))]
    elif name == "exponential":
        p = [f(.3, 4)]
        b = [draw(st.sampled_from([0.0, .01, 1.0])), p[0] * f(3, 20) + 1]
    else:
        p = [f(-3, 0), f(.5, 3)]
        b = [p[0], p[1]]
    return {"n": name, "p": p, "how": how, "b": b, "metro": draw(st.sampled_from("yyn")) if name in ("normal", "beta") else "y", "seed": draw(st.integers(0, 10**6)), "copy": draw(st.booleans()), "rm": draw(st.booleans()), "k": draw(st.sampled_from([1000, 3000]))}


def run_arms(c):
    name, p, (lo, hi) = c["n"], c["p"], c["b"]
    base = MD.model(name, p)
    m = L.pp_sh_nodraw(base)
    what = "adaptive rejection from %s%s (%s)" % (name, p, c["how"])
    if c["how"] == "bounds":
        L.vpddciP_sh_arms(m, lo, hi, c["metro"], 0, [])
    elif c["how"] == "points":
        lo, hi = p[0] - 6 * p[1], p[0] + 6 * p[1]
        L.vpddciP_sh_arms(m, lo, hi, c["metro"], 4, [p[0] - p[1], p[0] - .1 * p[1], p[0] + .3 * p[1], p[0] + 2 * p[1]])
    else:
        lo, hi = -10.1, 10.1
    x = take(m, c["k"], 1, c["seed"], what)[:, 0]
    d = MODELS[name].dist(p)
    check(np.all((x >= lo) & (x <= hi)), "%s: a draw outside %s to %s: %s to %s", what, lo, hi, x.min(), x.max())
    a, b = d.cdf(lo), d.cdf(hi)
    ks(x, lambda u: (d.cdf(u) - a) / (b - a), what + " over %s to %s" % (lo, hi))
    if c["copy"]:
        m2 = L.pp_apop_model_copy(m)
        y = take(m2, 1000, 1, c["seed"] + 1, what)[:, 0]
        ks(y, lambda u: (d.cdf(u) - a) / (b - a), what + ", a copy in use")
        L.vp_apop_model_free(m2)
        y = take(m, 1000, 1, c["seed"] + 2, what)[:, 0]
        ks(y, lambda u: (d.cdf(u) - a) / (b - a), what + ", after its copy is gone")
    if c["rm"]:
        L.vp_sh_rm_arms(m)
    L.vp_apop_model_free(m)
    L.vp_apop_model_free(base)
    return [name, c["how"], "nt"]


# ------------------------------------------------------------ Metropolis, when there is nothing better
def run_mcmc(c):
    k = len(c["p"])
    base = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), k, k, k, k, 0, c["p"], [y for r in c["S"] for y in r])
    m = L.pp_sh_nodraw(base)
    n = 12000
    if "before" in c["own"]:        # settings for searches over the parameters
        L.vpidccid_sh_mc_settings(m, 500, .1, c["own"][0].encode(), b"1", 0, 0.0)
    if "copy" in c["own"]:
        take(m, 20, k, c["seed"] + 1, "Metropolis draws")
        m2 = L.pp_apop_model_copy(m)
        L.vp_apop_model_free(m)
        L.vp_apop_model_free(base)
        m, base = m2, None
    x = take(m, n, k, c["seed"], "Metropolis draws")
    if "after" in c["own"]:
        L.vpidccid_sh_mc_settings(m, 500, .1, c["own"][0].encode(), b"1", 0, 0.0)
        y = take(m, 20, k, c["seed"] + 1, "Metropolis draws")
        check(np.all(np.abs(y - np.array(c["p"])) < 9 * np.sqrt(np.diag(np.array(c["S"])))), "Metropolis draws after adding settings to the model are off: %s", y[-1])
    for i in range(k):
        sd = math.sqrt(c["S"][i][i])
        mu, s = float(np.mean(x[2000:, i])), float(np.std(x[2000:, i]))
        check(abs(mu - c["p"][i]) < .5 * sd, "Metropolis draws of a Normal%s with covariance %s: mean of element %s is %s", c["p"], c["S"], i, mu)
        check(.6 * sd < s < 1.5 * sd, "Metropolis draws of a Normal%s with covariance %s: deviation of element %s is %s", c["p"], c["S"], i, s)
    for i in range(k):
        for j in range(i):
            r = float(np.corrcoef(x[2000:, i], x[2000:, j])[0, 1])
            w = c["S"][i][j] / math.sqrt(c["S"][i][i] * c["S"][j][j])
            check(abs(r - w) < .35, "Metropolis draws of a Normal with covariance %s: correlation %s", c["S"], r)
    L.vp_apop_model_free(m)
    L.vp_apop_model_free(base)
    return ["mcmc", c["own"], "nt"]


@st.composite
def mcmc_c(draw):
    k = draw(st.integers(2, 3))
    sd = [draw(st.sampled_from([.5, 1.0, 2.0])) for _ in range(k)]
    rho = draw(st.sampled_from([-.3, 0.0, .5]))
    return {"p": [draw(st.floats(-3, 3).map(lambda x: round(x, 2))) for _ in range(k)], "S": [[sd[i] * sd[j] * (1 if i == j else rho) for j in range(k)] for i in range(k)], "seed": draw(st.integers(1, 10**6)),
            "own": draw(st.sampled_from(["", "b before", "i before", "a after", "b after", "copy", "b before copy"]))}


# ------------------------------------------------------------ rows of draws
@st.composite
def rows_c(draw):
    kind = draw(st.sampled_from(["normal", "poisson", "uniform", "multinomial", "multinomial", "mvn", "dirichlet", "kde", "arms", "pmf"]))
    return {"k": kind, "how": draw(st.sampled_from([0, 0, 0, 1, 2, 2])), "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 300), st.sampled_from([2000]))), "extra": draw(st.sampled_from([0, 0, 1, 3])), "v": draw(st.booleans()),
            "view": draw(st.booleans()), "kk": draw(st.integers(2, 4)), "bad": draw(st.sampled_from([None] * 9 + ["null", "dsize", "nomatrix", "narrow", "fail"]))}


def rows_model(c):
    """model, width, list of (column, cdf, discrete)"""
    kind, k = c["k"], c["kk"]
    if kind in ("normal", "poisson", "uniform"):
        p = {"normal": [1.5, 2.0], "poisson": [3.5], "uniform": [-1.0, 4.0]}[kind]
        M = MODELS[kind]
        return MD.model(kind, p), 1, [(0, M.dist(p).cdf, "int" if M.disc else False)]
    if kind == "multinomial":
        pr = {2: [.3, .7], 3: [.2, .5, .3], 4: [.1, .2, .3, .4]}[k]
        m = L.ppiiiiiPP_sh_model(var("apop_multinomial"), k, 0, 0, k, 0, [12.0] + pr[1:], [])
        return m, k, [(i, (lambda q: lambda u: stats.binom.cdf(u, 12, q))(pr[i]), "int") for i in range(k)]
    if kind == "mvn":
        m = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), k, k, k, k, 0, [float(i) for i in range(k)], [(1.0 + i if i == j else .3) for i in range(k) for j in range(k)])
        return m, k, [(i, stats.norm(i, math.sqrt(1 + i)).cdf, False) for i in range(k)]
    if kind == "dirichlet":
        m = L.ppiiiiiPP_sh_model(var("apop_dirichlet"), k, 0, 0, k, 0, [1.0 + i for i in range(k)], [])
        s = sum(1.0 + i for i in range(k))
        return m, k, [(i, stats.beta(1 + i, s - 1 - i).cdf, False) for i in range(k)]
    if kind == "kde":
        m = L.ppccd_sh_kde(mk({"v": [-6.0, 0.0, 5.0]}), "d", "n", 1.0)
        return m, 1, [(0, lambda u: (stats.norm.cdf(u, -6) + stats.norm.cdf(u, 0) + stats.norm.cdf(u, 5)) / 3, False)]
    if kind == "arms":
        m = L.pp_sh_nodraw(MD.model("normal", [.5, 1.5]))
        return m, 1, [(0, stats.norm(.5, 1.5).cdf, False)]
    m = L.ppp_apop_estimate(mk({"m": [[1.0, 10.0], [2.0, 20.0], [4.0, 30.0]], "w": [1.0, 0.0, 3.0]}), var("apop_pmf"))
    return m, 2, [(0, lambda u: np.where(u >= 4, 1.0, np.where(u >= 1, .25, 0)), True), (1, lambda u: np.where(u >= 30, 1.0, np.where(u >= 10, .25, 0)), True)]


def run_rows(c):
    m, w, cdfs = rows_model(c)
    if c["bad"]:
        b = c["bad"]
        if b == "null":
            r = L.ppiip_sh_model_draws(None, 0, 4, None)
        elif b == "dsize":
            L.vpi_sh_set_dsize(m, 0)
            r = L.ppiip_sh_model_draws(m, 0, 4, None)
        elif b == "nomatrix":
            r = L.ppiip_sh_model_draws(m, 2, 4, mk({"v": [1.0, 2.0]}))
        elif b == "fail":
            r = L.ppiip_sh_model_draws(MD.model("zipf", [.5]), 0, 4, None)
            check(np.all(np.isnan(arr(r))), "rows of a model that can not draw: %s", arr(r))
        else:
            if w < 2:
                return ["bad"]
            d = mk({"m": [[7.0] * (w - 1)] * 3})
            before = dump(d)
            r = L.ppiip_sh_model_draws(m, 2, 4, d)
            eq(r, d, "data set returned")
            eq(norm(dump(d))["m"], [[7.0] * (w - 1)] * 3, "a data set too narrow for the draws")
        check(r, "no data set back from a bad request for draws (%s)", b)
        eq(chr(L.ip_sh_error(r)), {"null": "m", "dsize": "m", "nomatrix": "m", "narrow": "s", "fail": "d"}[b], "error mark for a bad request for draws (%s)" % b)
        return ["bad"]
    n = c["n"]
    if c["how"] == 2:
        cols = w + c["extra"]
        if c["view"]:
            d = L.ppp_sh_data_of(None, L.piiP_sh_mat_strided(n, cols, [7.5] * (n * cols)))
        else:
            d = mk({"m": [[7.5] * cols] * n})
        r = L.ppiip_sh_model_draws(m, 2, 0, d)
        eq(r, d, "data set returned")
    else:
        if c["how"] == 1:
            n = 1000
        r = L.ppiip_sh_model_draws(m, c["how"], n, None)
        cols = w
    check(r and not L.ip_sh_error(r), "requesting %s draws: error", n)
    a = arr(r)
    eq(list(a.shape), [n, cols], "shape of the draws")
    check(np.all(a[:, w:] == 7.5), "columns beyond the draws were changed")
    a = a[:, :w]
    check(np.all(np.isfinite(a)), "%s: draws are not finite", c["k"])
    if c["k"] == "multinomial":
        check(np.all(a.sum(axis=1) == 12), "a multinomial draw does not sum to 12")
    if c["k"] in ("normal", "uniform", "mvn", "dirichlet") and n > 1:
        check(len(set(a[:, 0])) == n, "%s draws repeat: %s different of %s", c["k"], len(set(a[:, 0])), n)
    for i, F, disc in cdfs:
        ks(a[:, i], F, "%s, column %i of %i rows" % (c["k"], i, n), disc)
    return [c["k"]] + (["nt"] if n > 1 else [])


# ------------------------------------------------------------ generators
def run_rng(c):
    if c["k"] == "threads":
        a = arr(L.pii_sh_thread_rngs(c["t"], 20))
        rows = [tuple(r) for r in a]
        check(len(set(rows)) == len(rows), "two threads' generators give the same numbers")
        b = arr(L.pii_sh_thread_rngs(c["t"], 20))
        check(all(tuple(x) not in rows for x in b), "a thread's generator started over")
        return ["threads"] + (["nt"] if c["t"] > 1 else [])
    a, b, g = c["p"]
    x = arr(L.piiP_sh_ghgb3(c["n"], c["seed"], c["p"]))[:, 0]
    y = arr(L.piiP_sh_ghgb3(50, c["seed"], c["p"]))[:, 0]
    check(np.array_equal(x[:50], y), "GHgB3 draws from the same seed differ")
    check(np.all((x >= 0) & (x == np.floor(x))), "GHgB3%s: draws outside the support: %s", c["p"], x.min())
    K = np.arange(0, 400.0)
    lp = (special.gammaln(a + g) + special.gammaln(b + g) - special.gammaln(g) - special.gammaln(a + b + g)
          + special.gammaln(a + K) - special.gammaln(a) + special.gammaln(b + K) - special.gammaln(b) - special.gammaln(a + b + g + K) + special.gammaln(a + b + g) - special.gammaln(K + 1))
    pm = np.cumsum(np.exp(lp))
    ks(np.minimum(x, 400), lambda u: np.where(u >= 400, 1.0, np.where(u < 0, 0, pm[np.clip(np.floor(u), 0, 399).astype(int)])), "GHgB3%s" % c["p"], "int")
    return ["ghgb3", "nt"]


rng_c = st.one_of(st.fixed_dictionaries({"k": st.just("threads"), "t": st.integers(1, 6)}),
                  st.fixed_dictionaries({"k": st.just("g"), "n": st.sampled_from([1000, 3000]), "seed": st.integers(0, 10**6), "p": st.tuples(MD.POS, MD.POS, MD.POS).map(list)}))

FACETS = [
    Facet("one-dimensional", lambda t: uni_c(), run_uni, quick=900, thorough=20000),
    Facet("many-dimensional", lambda t: multi_c(), run_multi, quick=400, thorough=8000),
    Facet("kernel", lambda t: kde_c(), run_kde, quick=250, thorough=4000),
    Facet("arms", lambda t: arms_c(), run_arms, quick=400, thorough=8000),
    Facet("metropolis", lambda t: mcmc_c(), run_mcmc, quick=24, thorough=400),
    Facet("rows", lambda t: rows_c(), run_rows, quick=500, thorough=8000),
    Facet("rows-threads", lambda t: rows_c(), run_rows, quick=250, thorough=4000, threads=4),
    Facet("generators", lambda t: rng_c, run_rng, quick=120, thorough=2000),
]
