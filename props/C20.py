"""Probabilities and log likelihoods of the built-in distributions."""
import math
import numpy as np
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD
from models import MODELS, INF

RULE = ("Eleven univariate distributions with admissible parameters (scales from 0.05 to 20 and beyond), 1 to 12 observations spread over the quantiles and at the edges of the support, one case in six with an observation outside it, kept in a vector, a matrix of 1 to 3 columns, "
        "both, or views into bigger blocks; multinomial, binomial (n also 2), Dirichlet and multivariate Normal of 1 to 5 dimensions; kernel densities over 1 to 8 weighted points with Normal and Uniform kernels. "
        "Non-trivial: at least two different observations with a finite log likelihood, or an observation outside the support. Distinct by the whole case.")
ASSUMPTIONS = ["non-integer values of the Zipf and Yule distributions, which the library reads as points of the continuous formula, are not generated", "multinomial rows sum to n; Dirichlet rows sum to one to rounding, or have a negative element",
               "points where the density is infinite are not generated"]


def layout(x, how, cols):
    """a data set holding the values x in the given arrangement; returns the pointer"""
    if how == "v":
        return L.ppp_sh_data_of(vec(x), None)
    if how == "V":
        return L.ppp_sh_data_of(L.piP_sh_vec_strided(len(x), x), None)
    while len(x) % cols:
        cols -= 1
    if how in "mM":
        rows = len(x) // cols
        return L.ppp_sh_data_of(None, (L.piiP_sh_mat_strided if how == "M" else L.piiP_sh_mat)(rows, cols, x))
    k = len(x) // (cols + 1)        # vector of k, matrix of k x cols
    if k * (cols + 1) != len(x) or k == 0:
        return layout(x, "m", 1)
    return L.ppp_sh_data_of(vec(x[:k]), L.piiP_sh_mat(k, cols, x[k:]))


@st.composite
def uni_c(draw):
    name = draw(st.sampled_from(sorted(MODELS)))
    m = MODELS[name]
    p = draw(m.params)
    pt = m.point(p)
    x = [draw(pt) for _ in range(draw(st.integers(1, 12)))]
    if draw(st.integers(0, 5)) == 0:
        out = m.outside if m.outside is not None else st.sampled_from([p[0] - 1, p[1] + .5, p[0] - 1e-3]) if name == "uniform" else None
        if out is not None:
            x[draw(st.integers(0, len(x) - 1))] = draw(out)
    return {"n": name, "p": list(p), "x": x, "how": draw(st.lists(st.sampled_from("vVmMb"), min_size=4, max_size=4)), "cols": draw(st.integers(1, 3)),
            "cut": draw(st.integers(0, len(x))), "perm": draw(st.permutations(range(len(x)))), "copy": draw(st.booleans())}


def tol(terms, extra=0):
    return 1e-9 * (sum(abs(t) for t in terms if math.isfinite(t)) + extra + 1)


def cmp(got, want, t, what):
    if math.isinf(want) or math.isinf(got) or got != got:
        eq(got, want, what)
    else:
        near(got, want, what, 0, t)


def both(m, d, want, t, what):
    ll = L.dpp_apop_log_likelihood(d, m)
    cmp(ll, want, t, "log likelihood " + what)
    p = L.dpp_apop_p(d, m)
    wp = math.exp(want) if want < 700 else INF
    if want > 690:
        check(p > 1e290, "p %s: got %s for a log likelihood of %s", what, p, want)
    else:
        near(p, wp, "probability " + what, 2 * t + 1e-9, 1e-300)
        if wp > 1e-290:
            near(math.log(p), ll, "log of the probability " + what, 1e-9, 2 * t)
        if want == -INF:
            eq(p, 0.0, "probability " + what)


def run_uni(c):
    name, p, x = c["n"], c["p"], c["x"]
    M = MODELS[name]
    m = MD.model(name, p)
    eq(norm(dump(L.pp_sh_params(m)))["v"], p, "parameters")
    if c["copy"]:
        m = L.pp_apop_model_copy(m)
    terms = [M.ll(y, p) for y in x]
    want = sum(terms)
    # lgamma differences lose digits relative to their size
    ex = sum(abs(math.lgamma(y + 5)) for y in x if y >= 0) if name in ("poisson", "yule") else sum(((y - p[0]) / p[1]) ** 2 for y in x) if name == "normal" else sum(abs(math.lgamma(z)) for z in p) * len(x) if name in ("gamma", "beta") else 0
    t = tol(terms, ex)
    a = layout(x, c["how"][0], c["cols"])
    before = dump(a)
    both(m, a, want, t, "of %s%s at %s" % (name, p, x))
    eq(dump(a), before, "the data after evaluation")
    px = [x[i] for i in c["perm"]]
    cmp(L.dpp_apop_log_likelihood(layout(px, c["how"][1], 1), m), want, t, "log likelihood in another order")
    k = c["cut"]
    if 0 < k < len(x):
        la = L.dpp_apop_log_likelihood(layout(x[:k], c["how"][2], c["cols"]), m)
        lb = L.dpp_apop_log_likelihood(layout(x[k:], c["how"][3], c["cols"]), m)
        cmp(la, sum(terms[:k]), t, "log likelihood of the first part")
        cmp(la + lb, want, 2 * t, "sum of the log likelihoods of two parts")
        sa, sb = layout(x[:k], "v", 1), layout(x[k:], "v", 1)
        both(m, L.pppcc_apop_data_stack_base(sa, sb, "r", "n"), want, t, "of a stack")
    eq(norm(dump(L.pp_sh_params(m)))["v"], p, "parameters after evaluation")
    labels = [name]
    if want == -INF:
        labels += ["outside", "nt"]
    elif len(set(x)) > 1:
        labels.append("nt")
    return labels


# ------------------------------------------------------------ rows as observations
@st.composite
def multi_c(draw):
    kind = draw(st.sampled_from(["multinomial", "binomial", "dirichlet", "mvn", "mvn"]))
    rows = draw(st.integers(1, 6))
    k = 2 if kind == "binomial" else draw(st.integers(2, 5)) if kind != "mvn" else draw(st.integers(1, 4))
    c = {"k": kind, "s": draw(st.booleans())}
    if kind in ("multinomial", "binomial"):
        n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
        w = draw(st.lists(st.integers(0, 9), min_size=k, max_size=k).filter(lambda w: sum(w) > 0))
        c["p"] = [float(n)] + [x / sum(w) for x in w[1:]]
        c["x"] = []
        for _ in range(rows):
            cuts = sorted(draw(st.lists(st.integers(0, n), min_size=k - 1, max_size=k - 1)))
            r = [float(b - a) for a, b in zip([0] + cuts, cuts + [n])]
            if draw(st.integers(0, 2)):
                for i in range(k):      # no hits in a bin of no probability
                    if w[i] == 0 and r[i]:
                        j = next(j for j in range(k) if w[j])
                        r[j] += r[i]
                        r[i] = 0.0
            c["x"].append(r)
        if draw(st.integers(0, 9)) == 0:
            c["x"][-1][0] += c["x"][-1][1] + 1
            c["x"][-1][1] = -1.0
    elif kind == "dirichlet":
        c["p"] = [draw(MD.POS) for _ in range(k)]
        ok = all(a >= 1 for a in c["p"])
        c["x"] = []
        for _ in range(rows):
            w = [draw(st.integers(0 if ok and not draw(st.integers(0, 3)) else 1, 60)) for _ in range(k)]
            w[0] += 1
            c["x"].append([y / sum(w) for y in w])
        if draw(st.integers(0, 7)) == 0:
            c["x"][-1][0] += 2 * c["x"][-1][1]
            c["x"][-1][1] *= -1
            if c["x"][-1][1] == 0:
                c["x"][-1][1] = -0.25
    else:
        c["p"] = [draw(MD.MU) for _ in range(k)]
        a = np.array([[draw(st.integers(-8, 8)) / 4 for _ in range(k)] for _ in range(k)])
        sd = np.diag([draw(st.sampled_from([0.1, 1, 1, 10])) for _ in range(k)])
        s = sd @ (a @ a.T + draw(st.sampled_from([0.25, 1.0])) * np.eye(k)) @ sd
        c["S"] = ((s + s.T) / 2).tolist()
        c["x"] = [[c["p"][j] + draw(st.floats(-4, 4).map(lambda x: round(x, 4))) * math.sqrt(c["S"][j][j]) for j in range(k)] for _ in range(rows)]
    c["perm"] = draw(st.permutations(range(rows)))
    return c


def run_multi(c):
    kind, p, x = c["k"], c["p"], c["x"]
    k = len(x[0])
    base = var({"multinomial": "apop_multinomial", "binomial": "apop_binomial", "dirichlet": "apop_dirichlet", "mvn": "apop_multivariate_normal"}[kind])
    if kind == "binomial":
        m = L.ppiP_sh_set_params(base, 2, p)
    elif kind == "mvn":
        m = L.ppiiiiiPP_sh_model(base, k, k, k, k, 0, p, [y for r in c["S"] for y in r])
    else:
        m = L.ppiiiiiPP_sh_model(base, k, 0, 0, k, 0, p, [])
    ex = 0.0
    terms = []
    if kind == "mvn":
        S = np.array(c["S"])
        sign, ld = np.linalg.slogdet(S)
        cond = np.linalg.cond(S)
        for r in x:
            z = np.array(r) - np.array(p)
            qf = float(z @ np.linalg.solve(S, z))
            ex += qf * cond * 1e-5
            terms.append(-.5 * (k * math.log(2 * math.pi) + ld + qf))
        ex += cond * 1e-5
    elif kind == "dirichlet":
        for r in x:
            terms.append(-INF if min(r) < 0 else math.lgamma(sum(p)) + sum(MD.xlny(a - 1, y) - math.lgamma(a) for a, y in zip(p, r)))
        ex = len(x) * (abs(math.lgamma(sum(p))) + sum(abs(math.lgamma(a)) for a in p))
    else:
        n, pr = p[0], [1 - sum(p[1:])] + p[1:]
        if abs(pr[0]) < 1e-12:
            if any(r[0] > 0 for r in x):
                return ["no numeraire"]         # the leftover probability is zero only to rounding
            pr[0] = 0.0
        for r in x:
            terms.append(-INF if min(r) < 0 else math.lgamma(n + 1) + sum(MD.xlny(y, a) - math.lgamma(y + 1) for a, y in zip(pr, r)))
            ex += 3 * math.lgamma(n + 1)
    want = sum(terms)
    t = tol(terms, ex)
    f = L.piiP_sh_mat_strided if c["s"] else L.piiP_sh_mat
    mk_ = lambda rr: L.ppp_sh_data_of(None, f(len(rr), k, [y for r in rr for y in r]))
    d = mk_(x)
    before, pb = dump(d), dump(L.pp_sh_params(m))
    both(m, d, want, t, "of %s at %s" % (kind, x))
    cmp(L.dpp_apop_log_likelihood(mk_([x[i] for i in c["perm"]]), m), want, t, "log likelihood in another order")
    for r, w in zip(x, terms):
        cmp(L.dpp_apop_log_likelihood(mk_([r]), m), w, t, "log likelihood of one row %s" % r)
    eq(dump(d), before, "the data after evaluation")
    eq(dump(L.pp_sh_params(m)), pb, "parameters after evaluation")
    labels = [kind]
    if want == -INF:
        labels += ["outside", "nt"]
    elif k > 1 and len(x) > 1:
        labels.append("nt")
    return labels


# ------------------------------------------------------------ kernel densities
@st.composite
def kde_c(draw):
    n = draw(st.integers(1, 8))
    pts = [draw(st.one_of(st.integers(-6, 6).map(float), st.floats(-20, 20).map(lambda x: round(x, 3)))) for _ in range(n)]
    kern = draw(st.sampled_from(["\0", "n", "u"]))
    x = [draw(st.one_of(st.integers(-8, 8).map(lambda i: i + .1), st.floats(-25, 25).map(lambda x: round(x, 3)))) for _ in range(draw(st.integers(1, 6)))]
    return {"pts": pts, "w": draw(st.one_of(st.none(), st.lists(st.integers(0, 4).map(float), min_size=n, max_size=n).filter(lambda w: sum(w) > 0))), "kern": kern,
            "wd": draw(st.sampled_from([0.5, 1.0, 3.0, 12.0])), "x": x, "how": draw(st.sampled_from("dep")), "lay": draw(st.sampled_from("vm")), "xl": draw(st.sampled_from("vm"))}


def kde_oracle(c, cdf=False):
    n = len(c["pts"])
    w = c["w"] or [1.0] * n
    out = []
    for x in c["x"]:
        s = 0.0
        best = -INF
        for p, wt in zip(c["pts"], w):
            z, wd = x - p, c["wd"] if c["kern"] != "\0" else 1.0
            if c["kern"] == "u":
                if abs(abs(z) - wd / 2) < 1e-9:
                    return None
                s += wt * ((1 if z > wd / 2 else 0 if z < -wd / 2 else z / wd + .5) if cdf else (1 / wd if abs(z) < wd / 2 else 0))
            elif cdf:
                s += wt * .5 * math.erfc(-z / wd / math.sqrt(2))
            else:
                if wt:
                    lt = math.log(wt) + MD.norm_ll(x, (p, wd))
                    best, s = (lt, s * math.exp(best - lt) + 1) if lt > best else (best, s + math.exp(lt - best))
        out.append(s / sum(w) if cdf else (MD.ln(s) + (best if best > -INF else 0) - math.log(sum(w))))
    return out


def run_kde(c):
    n = len(c["pts"])
    w = c["w"]
    dens = kde_oracle(c)
    if dens is None:
        return ["edge"]
    how = c["how"]
    d = {"v": c["pts"]} if c["lay"] == "v" else {"m": [[y] for y in c["pts"]]}
    if w:
        d["w"] = w
    dp = mk(d)
    m = L.ppccd_sh_kde(dp, how, c["kern"], c["wd"])
    want = sum(y for y in dens)
    x = layout(c["x"], c["xl"], 1)
    both(m, x, want, tol([y for y in dens]), "of a kernel density at %s" % c["x"])
    nk = sum(1 for y in (w or [1] * n) if y)
    return ["weights" if w else "unweighted", how] + (["nt"] if nk > 1 and (len(c["x"]) > 1 or want == -INF) else [])


FACETS = [
    Facet("univariate", lambda t: uni_c(), run_uni, quick=3000, thorough=40000),
    Facet("rows", lambda t: multi_c(), run_multi, quick=1200, thorough=20000),
    Facet("kernel", lambda t: kde_c(), run_kde, quick=700, thorough=12000),
]
