"""CDFs, the multivariate gamma, generalized harmonic numbers, the test-statistic helper."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy import stats, special
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD
from models import MODELS, INF
import props.C20 as C20

RULE = ("CDFs of nine distributions with closed forms and of Poisson, Zipf, Yule, Dirichlet and multivariate Normal models whose CDF comes from 2,000 to 10,000 draws, at 1 to 6 points at quantiles, on atoms and outside the support; kernel-density CDFs over weighted points; CDFs by draws of models whose 1 to 10 draws of 1 to 4 dimensions are known and made a whole number of times over, asked on and off the drawn points in every layout, before and after copying the model and changing its parameter; "
        "sequences of 2 to 12 harmonic-number requests (N to 400, a few exponents repeated, in turn or from several threads); multivariate gammas of dimension 1 to 6 at multiples of a quarter and other points; every distribution, tail and set of given arguments of the test helper; beta distributions by mean and variance. "
        "Non-trivial: a CDF with at least two points and a value strictly between zero and one, a harmonic sequence that goes back to an exponent with another N, a gamma of dimension at least 2, a test with non-default parameters. Distinct by the whole case.")
ASSUMPTIONS = ["CDFs from draws are held to 7 standard errors of the exact value (a false alarm has a chance below 1e-11 each)", "the CDF of a data set with both vector and matrix is not asked for one-dimensional models",
               "the log of a negative multivariate gamma is only required not to crash"]
R3 = lambda x: round(x, 3)
CLOSED = ["normal", "lognormal", "exponential", "gamma", "beta", "uniform", "t", "bernoulli"]
DRAWN = ["poisson", "zipf", "yule"]


@st.composite
def cdf_c(draw):
    name = draw(st.sampled_from(CLOSED + ["binomial", "improper"]))
    if name == "binomial":
        p = [float(draw(st.integers(1, 60))), draw(st.one_of(MD.U01, st.sampled_from([0.5, 0.0, 1.0])))]
        pt = st.one_of(st.integers(-2, int(p[0]) + 2).map(float), st.integers(0, int(p[0])).map(lambda k: k + .5))
    elif name == "improper":
        p, pt = [], MD.MU
    else:
        M = MODELS[name]
        p = draw(M.params)
        pt = st.one_of(M.point(p), M.point(p), M.point(p), MD.MU, MD.NEG, st.sampled_from([0.0, 1.0, 0.5, 1e6, -1e6]))
    x = [draw(pt) for _ in range(draw(st.integers(1, 6)))]
    return {"n": name, "p": list(p), "x": x, "how": draw(st.sampled_from("vVmM")), "extra": draw(st.booleans()), "copy": draw(st.booleans())}


def point(x, how, extra):
    """a data set whose first observation is x"""
    d = [x] + ([x - 7.5, 99.0] if extra else [])
    return C20.layout(d, how, 1)


def run_cdf(c):
    name, p = c["n"], c["p"]
    if name == "improper":
        m = L.pp_apop_model_copy(var("apop_improper_uniform"))
    else:
        m = L.ppiP_sh_set_params(var("apop_binomial" if name == "binomial" else MODELS[name].c), len(p), p)
    if c["copy"]:
        m = L.pp_apop_model_copy(m)
    dist = stats.binom(int(p[0]), p[1]) if name == "binomial" else None if name == "improper" else MODELS[name].dist(p)
    got = []
    for x in c["x"]:
        d = point(x, c["how"], c["extra"])
        before = dump(d)
        g = L.dpp_apop_cdf(d, m)
        eq(dump(d), before, "data after the CDF")
        w = .5 if dist is None else float(dist.cdf(x))
        check(0 <= g <= 1 + 1e-12, "CDF of %s%s at %s is %s", name, p, x, g)
        near(g, w, "CDF of %s%s at %s" % (name, p, x), 1e-7, 1e-10)
        got.append((x, g))
    got.sort()
    for a, b in zip(got, got[1:]):
        check(a[1] <= b[1] + 1e-12, "the CDF decreases: %s then %s", a, b)
    return [name] + (["nt"] if len(set(c["x"])) > 1 and any(0 < g < 1 for x, g in got) else [])


@st.composite
def drawn_c(draw):
    name = draw(st.sampled_from(DRAWN + ["mvn", "mvn", "dirichlet"]))
    c = {"n": name, "draws": draw(st.sampled_from([2000, 2000, 5000, 0])), "seed": draw(st.integers(0, 10**6)), "extra": draw(st.booleans())}
    if name == "mvn":
        k = draw(st.integers(1, 3))
        c["p"] = [draw(MD.MU) for _ in range(k)]
        sd = [draw(st.sampled_from([0.5, 1.0, 4.0])) for _ in range(k)]
        rho = draw(st.sampled_from([-.3, 0, .4, .8]))
        c["S"] = [[sd[i] * sd[j] * (1 if i == j else rho) for j in range(k)] for i in range(k)]
        c["x"] = [[c["p"][j] + sd[j] * draw(st.floats(-2, 3).map(lambda x: round(x, 2))) for j in range(k)] for _ in range(draw(st.integers(1, 4)))]
    elif name == "dirichlet":
        k = 2
        c["p"] = [draw(st.floats(.3, 8).map(lambda x: round(x, 3))) for _ in range(k)]
        c["x"] = [[draw(st.floats(0, 1).map(lambda x: round(x, 3))) for _ in range(k)] for _ in range(draw(st.integers(1, 4)))]
    else:
        c["p"] = list(draw(MODELS[name].params if name != "zipf" else st.tuples(st.floats(1.3, 6).map(lambda x: round(x, 3)))))
        c["x"] = [[draw(st.one_of(MODELS[name].point(c["p"]), st.integers(0, 5).map(float), st.integers(0, 9).map(lambda i: i + .5)))] for _ in range(draw(st.integers(1, 5)))]
    return c


def run_drawn(c):
    name, p = c["n"], c["p"]
    k = len(c["x"][0])
    if name == "mvn":
        m = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), k, k, k, k, 0, p, [y for r in c["S"] for y in r])
        mv = stats.multivariate_normal(p, c["S"])
        F = lambda x: float(mv.cdf(x))
    elif name == "dirichlet":
        m = L.ppiiiiiPP_sh_model(var("apop_dirichlet"), k, 0, 0, k, 0, p, [])
        be = stats.beta(p[0], p[1])
        F = lambda x: max(0.0, float(be.cdf(x[0]) - be.cdf(1 - x[1])))
    else:
        m = MD.model(name, p)
        dist = MODELS[name].dist(p)
        F = lambda x: float(dist.cdf(math.floor(x[0])))
    if c["draws"] or c["seed"] % 2:
        L.vpii_sh_cdf_group(m, c["draws"], c["seed"] % 1000)
    n = c["draws"] or 10000
    got = []
    for x in c["x"]:
        rows = [x] + ([[-9.0] * k] if c["extra"] else [])
        d = L.ppp_sh_data_of(None, L.piiP_sh_mat(len(rows), k, [y for r in rows for y in r]))
        g = L.dpp_apop_cdf(d, m)
        w = F(x)
        check(abs(g - w) <= 7 * math.sqrt(w * (1 - w) / n) + 4 / n + 2e-5, "CDF of %s%s at %s from %s draws: got %s, exact value %s", name, p, x, n, g, w)
        eq(L.dpp_apop_cdf(d, m), g, "the same CDF again")
        got.append((x, g))
    for x, g in got:
        for y, h in got:
            if all(a <= b for a, b in zip(x, y)):
                check(g <= h, "the CDF decreases: %s at %s, %s at %s", g, x, h, y)
    L.vp_apop_model_free(m)
    return [name] + (["nt"] if any(0 < g < 1 for x, g in got) and len(got) > 1 else [])


@st.composite
def walk_c(draw):
    k = draw(st.integers(1, 4))
    g = draw(st.sampled_from([st.integers(0, 1).map(float), st.integers(-2, 2).map(float), st.floats(-2, 2).map(R3)]))
    row = st.lists(g, min_size=k, max_size=k)
    L_ = draw(st.lists(row, min_size=1, max_size=10).filter(lambda x: 10000 % len(x) == 0))
    pt = st.one_of(row, st.sampled_from(L_), st.sampled_from([[INF] * k, [-INF] * k]))
    q = draw(st.lists(st.fixed_dictionaries({"x": pt, "lay": st.sampled_from(["m", "v", "vm"]), "copy": st.integers(0, 2), "p": st.sampled_from([None, None, 1.0, -1.0, 0.0]), "extra": st.booleans()}), min_size=1, max_size=6))
    return {"rows": L_, "mult": draw(st.sampled_from([0, 1, 1, 3])), "q": q, "par": draw(st.booleans()), "late": draw(st.booleans())}


def run_walk(c):
    """The draws are known, and made a whole number of times over: the CDF by draws is exactly the share of rows of which no element is above the point's."""
    R = c["rows"]
    n, k = len(R), len(R[0])
    m = L.piiPi_sh_walk(n, k, [y for r in R for y in r], int(c["par"]))
    if c["mult"]:
        L.vpii_sh_cdf_group(m, n * c["mult"], 0)
    par = 0.0
    labels = set()
    ms = [m]
    for q in c["q"]:
        if q["copy"] == 1:
            ms.append(L.pp_apop_model_copy(m))
            m = ms[-1]
        if q["p"] is not None and c["par"]:
            par = q["p"]
            L.ipid_sh_set_row(L.pp_sh_params(m), 0, par)
        x = q["x"]
        lay = q["lay"] if k > 1 or q["lay"] != "vm" else "v"
        more = [[-9.0] * k] if q["extra"] else []
        d = mk({"m": [x] + more}) if lay == "m" else mk({"v": x}) if lay == "v" and k == 1 else mk({"v": [r[0] for r in [x] + more], "m": [r[1:] for r in [x] + more]}) if lay == "vm" else mk({"m": [x]})
        want = sum(all(a + par <= b for a, b in zip(r, x)) for r in R) / n
        g = L.dpp_apop_cdf(d, m)
        near(g, want, "CDF by draws of a model that draws %s%s, at %s (%s)" % (R, " plus %s" % par if par else "", x, lay), 1e-12, 1e-12)
        labels.add(lay)
        if 0 < want < 1:
            labels.add("nt")
    for m in ms:
        L.vp_apop_model_free(m)
    return sorted(labels) + ["%s-dim" % k]


def run_kcdf(c):
    want = None if False else C20.kde_oracle(c, True)
    if want is None:
        return ["edge"]
    d = {"v": c["pts"]} if c["lay"] == "v" else {"m": [[y] for y in c["pts"]]}
    if c["w"]:
        d["w"] = c["w"]
    m = L.ppccd_sh_kde(mk(d), c["how"], c["kern"], c["wd"])
    got = []
    for x, w in zip(c["x"], want):
        g = L.dpp_apop_cdf(point(x, c["xl"], False), m)
        near(g, w, "CDF of a kernel density at %s" % x, 1e-9, 1e-11)
        got.append((x, g))
    got.sort()
    check(all(a[1] <= b[1] + 1e-12 for a, b in zip(got, got[1:])), "the CDF decreases: %s", got)
    return ["weights" if c["w"] else "unweighted"] + (["nt"] if len(c["pts"]) > 1 and any(0 < g < 1 for x, g in got) else [])


# ------------------------------------------------------------ special functions
@st.composite
def harm_c(draw):
    pool = draw(st.lists(st.one_of(st.integers(-1, 4).map(float), st.floats(-1, 5).map(lambda x: round(x, 5))), min_size=1, max_size=3))
    if draw(st.integers(0, 2)) == 0:  # exponents that are all but equal
        pool.append(pool[0] + draw(st.sampled_from([1e-8, 1e-6, 1e-4, -1e-12, 3e-15])))
    return {"q": draw(st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 400), st.integers(-1, 2)), st.sampled_from(pool)), min_size=2, max_size=12)), "par": draw(st.integers(0, 3)) == 0}


def run_harm(c):
    N, s = [a for a, b in c["q"]], [b for a, b in c["q"]]
    o = L.PiIPi_sh_harmonics(len(N), N, s, int(c["par"]))
    seen = {}
    nt = False
    for i, (n, e) in enumerate(c["q"]):
        w = float("nan") if n <= 0 else math.fsum(1 / k ** e for k in range(1, n + 1))
        if n <= 0:
            check(o[i] != o[i], "harmonic number of %s terms is %s", n, o[i])
        else:
            near(o[i], w, "harmonic number N=%s s=%s after %s" % (n, e, c["q"][:i]), 1e-11, 0)
            nt = nt or (e in seen and seen[e] != n)
            seen[e] = n
    return (["threads"] if c["par"] else []) + (["nt"] if nt else [])


a_s = st.one_of(st.integers(-20, 60).map(lambda i: i / 4), st.floats(-4, 20).map(lambda x: round(x, 3)), st.integers(-6, 12).map(lambda i: i / 2))


def run_gamma(c):
    a, p = c
    args = [a + (1 - j) / 2 for j in range(1, p + 1)]
    bad = any(x <= 0 and x == math.floor(x) for x in args)
    g, lgm = L.ddi_sh_mvgamma(a, p), L.ddi_sh_mvlngamma(a, p)
    if bad:
        check(g != g and lgm != lgm, "multivariate gamma of %s, dimension %s is undefined; got %s, log %s", a, p, g, lgm)
        return ["undefined", "nt"]
    if any(abs(x - round(x)) < 1e-3 and round(x) <= 0 for x in args):
        return ["near a pole"]
    lw = math.log(math.pi) * p * (p - 1) / 4 + sum(math.lgamma(x) for x in args)
    sign = 1
    for x in args:
        if x < 0 and math.floor(x) % 2:
            sign = -sign
    near(g, sign * math.exp(lw), "multivariate gamma of %s, dimension %s" % (a, p), 1e-8, 1e-300)
    if sign > 0:
        near(lgm, lw, "log multivariate gamma of %s, dimension %s" % (a, p), 1e-9, 1e-8)
    return ["defined"] + (["nt"] if p > 1 else [])


DF = st.one_of(st.integers(1, 40), st.integers(1, 80).map(lambda x: x / 2), st.floats(.6, 30).map(lambda x: round(x, 2))).map(float)


@st.composite
def test_c(draw):
    d = draw(st.sampled_from(["", "normal", "Gaussian", "lognormal", "uniform", "t", "T", "chi squared", "chi", "chisq", "f", "F"]))
    k = d.lower()
    tail = draw(st.sampled_from("ula"))
    if k in ("", "normal", "gaussian", "lognormal"):
        p = [draw(st.sampled_from([0.0, 0.0, 1.0, -2.5])), draw(st.sampled_from([1.0, 1.0, .5, 3.0]))]
        x = p[0] + p[1] * draw(st.floats(-4, 4).map(lambda x: round(x, 3)))
        x = math.exp(x) if k == "lognormal" else x
        full = "s12t" if k == "" else "sd12t"
        opts = [full] + (["sd12"] if k else []) + ((["st"] if k == "" else ["sdt"]) + ([["s"], ["sd"]][k != ""]) if p == [0.0, 1.0] else []) + ((["s1t"] if k == "" else ["sd1t"]) + ([] if k == "" else ["sd1"]) if p[1] == 1.0 else [])
    elif k == "uniform":
        p = [draw(st.sampled_from([0.0, 0.0, -2.0, .5])), draw(st.sampled_from([1.0, 1.0, 4.0]))]
        x = p[0] + (p[1] - p[0]) * draw(st.floats(-.2, 1.2).map(lambda x: round(x, 3)))
        opts = ["sd12t", "sd12"] + (["sd", "sdt"] if p == [0.0, 1.0] else []) + (["sd1", "sd1t"] if p[0] >= 0 and p[1] == 1.0 else [])
    elif k == "f":
        p = [draw(DF), draw(DF)]
        x, opts = draw(st.floats(0, 6).map(lambda x: round(x, 3))), ["sd12t"]
    else:
        p = [draw(DF), 0.0]
        x = draw(st.floats(-5, 5).map(lambda x: round(x, 3))) if k == "t" else draw(st.floats(0, 50).map(lambda x: round(x, 3)))
        opts = ["sd1t", "sd1"]
    return {"d": d, "p": p, "x": x, "tail": tail, "g": draw(st.sampled_from(opts))}


def run_test(c):
    k, (a, b), x, g = c["d"].lower(), c["p"], c["x"], c["g"]
    tail = c["tail"] if "t" in g else "u" if k.startswith("chi") else "a"
    d = {"": lambda: stats.norm(a, b), "normal": lambda: stats.norm(a, b), "gaussian": lambda: stats.norm(a, b), "lognormal": lambda: stats.lognorm(b, scale=math.exp(a)), "uniform": lambda: stats.uniform(a, b - a),
         "t": lambda: stats.t(a), "f": lambda: stats.f(a, b)}.get(k, lambda: stats.chi2(a))()
    got = L.dsdsddc_sh_test(g, x, c["d"] or None, a, b, tail)
    if tail == "a" and (k in ("lognormal", "f") or k.startswith("chi")):
        check(got != got or got == 0, "a two-tailed %s test gave %s", k, got)
        return ["refused"]
    if tail == "u":
        w = float(d.sf(x))
    elif tail == "l":
        w = float(d.cdf(x))
    else:
        mid = {"t": 0.0, "uniform": (a + b) / 2}.get(k, a)
        w = 2 * float(d.sf(mid + abs(x - mid)))
    near(got, w, "p-value of %s for %s%s tail %s" % (x, c["d"], c["p"], tail), 1e-7, 1e-10)
    return [k or "default", tail] + (["nt"] if c["p"] != [0.0, 1.0] else [])


@st.composite
def bmv_c(draw):
    m = draw(st.one_of(st.floats(.02, .98).map(lambda x: round(x, 3)), st.sampled_from([.5, 0.0, 1.0, -.5, 1.2])))
    return {"m": m, "v": draw(st.floats(.02, .9)) * max(m * (1 - m), .01)}


def run_bmv(c):
    m, v = c["m"], c["v"]
    o = L.pdd_apop_beta_from_mean_var(m, v)
    if not 0 < m < 1:
        eq(chr(L.ip_sh_merror(o)), "r", "error of a beta with mean %s" % m)
        return ["refused"]
    a, b = norm(dump(L.pp_sh_params(o)))["v"]
    near(a / (a + b), m, "mean of the beta", 1e-9, 0)
    near(a * b / (a + b) ** 2 / (a + b + 1), v, "variance of the beta", 1e-9, 0)
    return ["nt"]


FACETS = [
    Facet("closed", lambda t: cdf_c(), run_cdf, quick=2500, thorough=30000),
    Facet("drawn", lambda t: drawn_c(), run_drawn, quick=500, thorough=6000),
    Facet("atoms", lambda t: walk_c(), run_walk, quick=500, thorough=8000),
    Facet("kernel", lambda t: C20.kde_c(), run_kcdf, quick=600, thorough=10000),
    Facet("harmonic", lambda t: harm_c(), run_harm, quick=600, thorough=10000),
    Facet("gamma", lambda t: st.tuples(a_s, st.integers(1, 6)), run_gamma, quick=1000, thorough=20000),
    Facet("pvalues", lambda t: test_c(), run_test, quick=1500, thorough=20000),
    Facet("betamv", lambda t: bmv_c(), run_bmv, quick=300, thorough=3000),
]
