"""Moments and covariances, plain and weighted."""
import itertools, math
from fractions import Fraction as Fr
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Vectors (contiguous and strided) and data sets of 1 to 9 observations and up to 4 columns, with constants, offsets and scales; no weights, replicate weights including zeros, all-one weights, fractional weights summing to more than one, and weights summing to one; "
        "all statistics against exact rational arithmetic; repetition, permutation, shift and scale; all samples of small distributions for unbiasedness. Non-trivial: at least four observations that are not all equal. Distinct by the whole case.")
ASSUMPTIONS = ["weights that sum to at least 1.1 are replicate counts, weights that sum to one make the number of observations the vector's length (as documented); anything between is not promised", "statistics of too few observations for them to exist are not promised"]
NAN = float("nan")

x_s = st.one_of(st.integers(-20, 20), st.integers(-2000, 2000).map(lambda x: x / 8), st.sampled_from([0.1, 0.1, 0.7, 1e-3])).map(float)


@st.composite
def case(draw):
    n = draw(st.one_of(G.size(1, 9, 30), G.size(3, 9, 30)))
    k = draw(st.integers(1, 4))
    off = draw(st.sampled_from([0, 0, 0, 10, 1000, 2.0 ** 20]))
    sc = draw(st.sampled_from([1, 1, 1 / 64, 1024]))
    col = lambda: [x * sc + off for x in (G_const() if draw(st.integers(0, 9)) == 0 else draw(G.vector(n, x_s) if n < 12 or draw(st.booleans()) else G.scatter(n)))]

    def G_const():
        return [draw(x_s)] * n
    wk = draw(st.sampled_from(["none", "rep", "rep", "one", "frac", "norm"]))
    w = None
    if wk == "rep":
        w = draw(G.vector(n, st.sampled_from([0.0, 1.0, 1.0, 2.0, 3.0, 7.0])))
    elif wk == "one":
        w = [1.0] * n
    elif wk == "frac":
        w = draw(G.vector(n, st.sampled_from([0.5, 1.25, 2.0, 3.75, 0.0])))
    elif wk == "norm":
        w = draw(G.vector(n, st.integers(0, 5).map(float)))
        t = sum(w) or 1
        w = [x / t for x in w]
    return {"x": [col() for _ in range(k)], "w": w, "wk": wk, "strided": draw(st.integers(0, 3)), "perm": draw(G.order(n)), "names": draw(st.booleans()), "a": draw(st.sampled_from([2.0, -1.0, 0.5, -8.0])), "b": draw(st.sampled_from([0.0, 1.0, -64.0]))}


def wstats(xs, ys, w, n):
    """exact mean, and central moments 2-4 of xs, comoment of xs and ys"""
    W = sum(w)
    mx, my = sum(a * p for a, p in zip(xs, w)) / W, sum(a * p for a, p in zip(ys, w)) / W
    cm = {k: sum(p * (x - mx) ** k for x, p in zip(xs, w)) / W for k in (2, 3, 4)}
    return mx, cm, sum(p * (x - mx) * (y - my) for x, y, p in zip(xs, ys, w)) / W


def mkv(x, c, i=0):
    """vector i of a case (-1 for the weights): none strided, all, every other one, or the opposite"""
    return L.piP_sh_vec_strided(len(x), x) if c["strided"] == 1 or c["strided"] > 1 and (i + c["strided"]) % 2 else vec(x)


def tol(x, p):
    """what rounding may cost a p-th moment"""
    m = max(abs(t) for t in x)
    s = max(x) - min(x)
    e = m * 1e-13
    return p * e * (s + e) ** (p - 1) * 4 + (1e-12 * m * m if p == 2 else 0) * 1e-3


def got_near(g, w, x, p, what):
    w = float(w)
    if not abs(g - w) <= 1e-9 * abs(w) + tol(x, p):
        raise Bad("%s: got %r, expected %r" % (what, g, w))


def run(c):
    xs, w, n = c["x"], c["w"], len(c["x"][0])
    F = [[Fr(t) for t in x] for x in xs]
    fw = [Fr(t) for t in w] if w else [Fr(1)] * n
    W = sum(fw)
    N = n if c["wk"] == "norm" else W  # the number of observations
    V = [mkv(x, c, i) for i, x in enumerate(xs)]
    wv = mkv(w, c, -1) if w else None
    lab = []
    promised = W > 0 and (c["wk"] in ("none", "one", "norm") or W >= Fr(11, 10))
    if c["wk"] == "norm" and not abs(float(W) - 1) < 1e-9:
        promised = False
    S = lambda k, v, ww: L.dcpp_sh_stat(k, v, ww)
    if promised:
        st_ = {}
        for i, x in enumerate(xs):
            mx, cm, _ = wstats(F[i], F[i], fw, N)
            st_[i] = cm
            what = "of %s weights %s" % (short(x), short(w))
            got_near(S("m", V[i], wv), mx, x, 1, "mean " + what)
            got_near(S("s", V[i], wv), cm[3], x, 3, "population skew " + what)
            got_near(S("k", V[i], wv), cm[4], x, 4, "population kurtosis " + what)
            if N > 1:
                got_near(S("v", V[i], wv), cm[2] * N / (N - 1), x, 2, "variance " + what)
            if not w:
                eq(S("V", V[i], None), S("v", V[i], None), "variance around the mean") if False else near(S("V", V[i], None), S("v", V[i], None), "variance given the mean", 1e-9, tol(x, 2)) if n > 1 else None
                got_near(S("+", V[i], None), sum(F[i]), x, 1, "sum")
                if n > 2:
                    got_near(S("S", V[i], None), cm[3] * n * n / ((n - 1) * (n - 2)), x, 3, "skew " + what)
                if n > 3:
                    got_near(S("K", V[i], None), (n * (n * n - 2 * n + 3) * cm[4] - 3 * n * (2 * n - 3) * cm[2] ** 2) / Fr((n - 1) * (n - 2) * (n - 3)), x, 4, "kurtosis " + what)
        d = {"m": [list(r) for r in zip(*xs)], "w": w}
        if c["names"]:
            d["cn"] = ["col %d" % i for i in range(len(xs))]
        p = mk(d)
        if N > 1:
            C = dump(L.pp_apop_data_covariance(p))
            Rr = dump(L.pp_apop_data_correlation(p))
            eq(C["n"]["c"], d.get("cn", []), "column names of the covariance")
            eq(C["n"]["r"], d.get("cn", []), "row names of the covariance")
            for i in range(len(xs)):
                for j in range(len(xs)):
                    cv = wstats(F[i], F[j], fw, N)[2] * N / (N - 1)
                    ti = math.sqrt(tol(xs[i], 2) * tol(xs[j], 2)) + (tol(xs[i], 2) + tol(xs[j], 2)) + 1e-13 * max(map(abs, xs[i])) * max(map(abs, xs[j]))
                    what = "of columns %d and %d, weights %s" % (i, j, short(w))
                    near(C["m"][i][j], float(cv), "covariance " + what, 1e-9, ti)
                    near(L.dppp_sh_cov(V[i], V[j], wv), float(cv), "covariance of vectors " + what, 1e-9, ti)
                    vi, vj = st_[i][2], st_[j][2]
                    # a correlation, where rounding leaves enough of the variance
                    if vi > 0 and vj > 0 and tol(xs[i], 2) < 1e-4 * float(vi) and tol(xs[j], 2) < 1e-4 * float(vj):
                        rr = float(cv * (N - 1) / N) / math.sqrt(vi * vj)
                        e = 1e-9 + 4 * ti / math.sqrt(vi * vj) + 4 * tol(xs[i], 2) / float(vi) + 4 * tol(xs[j], 2) / float(vj)
                        near(Rr["m"][i][j], rr, "correlation " + what, 1e-9, e)
                        near(L.dppp_sh_corr(V[i], V[j], wv), rr, "correlation of vectors " + what, 1e-9, e)
        # order does not matter; shift and scale
        x = xs[0]
        px = mkv([x[i] for i in c["perm"]], c)
        pw = mkv([w[i] for i in c["perm"]], c, -1) if w else None
        for k, p_ in (("m", 1), ("v", 2), ("s", 3), ("k", 4)):
            if k == "v" and N <= 1:
                continue
            near(S(k, px, pw), S(k, V[0], wv), "statistic %s of the observations in another order" % k, 1e-9, 2 * tol(x, p_))
            y = [c["a"] * t + c["b"] for t in x]
            g = S(k, mkv(y, c), wv)
            e = S(k, V[0], wv) * c["a"] ** p_ + (c["b"] if k == "m" else 0)
            near(g, e, "statistic %s of a x + b" % k, 1e-9, 2 * tol(y, p_) + 2 * abs(c["a"]) ** p_ * tol(x, p_))
        # replicate weights are repetition
        if c["wk"] in ("rep", "one"):
            rx = [t for t, m in zip(x, w) for _ in range(int(m))]
            rv = mkv(rx, c)
            for k, p_ in (("m", 1), ("v", 2), ("s", 3), ("k", 4)):
                if k == "v" and N <= 1:
                    continue
                near(S(k, V[0], wv), S(k, rv, None), "statistic %s by weights and by repetition" % k, 1e-9, 2 * tol(x, p_))
            zx, zw = mkv(x + [123.0], c), mkv(w + [0.0], c, -1)
            for k, p_ in (("m", 1), ("v", 2), ("s", 3), ("k", 4)):
                if k == "v" and N <= 1:
                    continue
                near(S(k, zx, zw), S(k, V[0], wv), "statistic %s with an observation of weight zero" % k, 1e-9, 2 * tol(x + [123.0], p_))
        for i, x in enumerate(xs):
            eq(dvec(V[i]), x, "input afterwards")
        eq(dvec(wv), w, "weights afterwards")
        if n > 3 and len(set(xs[0])) > 1:
            lab.append("nt")
        lab.append(c["wk"])
    # wrong sizes and NULLs
    bad = vec([1.0] * (n + 1))
    for k in "mvsk":
        eq(S(k, V[0], bad), NAN, "statistic %s with too many weights" % k)
        eq(S(k, None, None), NAN, "statistic %s of nothing" % k)
    eq(L.dppp_sh_cov(V[0], bad, None), NAN, "covariance of vectors of different sizes")
    eq(L.dppp_sh_cov(V[0], V[0], bad), NAN, "covariance with too many weights")
    return lab


# ------------------------------------------------------------------ whole matrices
def run_mat(c):
    m = c["m"]
    flat = [Fr(x) for r in m for x in r]
    M = mat(m)
    mu = sum(flat) / len(flat)
    var = sum((x - mu) ** 2 for x in flat) / len(flat)
    fx = [float(x) for x in flat]
    got_near(L.dcpi_sh_mstat("+", M, 0), sum(flat), fx, 1, "sum of a matrix")
    got_near(L.dcpi_sh_mstat("m", M, 0), mu, fx, 1, "mean of a matrix")
    got_near(L.dcpi_sh_mstat("b", M, 0), mu, fx, 1, "mean of a matrix (with the variance)")
    got_near(L.dcpi_sh_mstat("b", M, 1), var, fx, 2, "variance of a matrix")
    eq(dmat(M), m, "the matrix afterwards")
    return ["nt"] if len(set(fx)) > 1 and len(fx) > 3 else []


# ------------------------------------------------------------------ unbiased
@st.composite
def unb(draw):
    k = draw(st.integers(2, 3))
    n = draw(st.integers(2, 5 if k == 2 else 4))
    return {"n": n, "x": [draw(st.integers(-6, 6)) for _ in range(k)], "y": [draw(st.integers(-6, 6)) for _ in range(k)], "p": [draw(st.integers(1, 4)) for _ in range(k)]}


def run_unb(c):
    n, xs, ys = c["n"], c["x"], c["y"]
    P = [w / sum(c["p"]) for w in c["p"]]
    mu, my = sum(x * p for x, p in zip(xs, P)), sum(y * p for y, p in zip(ys, P))
    cm = {k: sum((x - mu) ** k * p for x, p in zip(xs, P)) for k in (2, 3, 4)}
    acc = dict.fromkeys("vSKc", 0.0)
    for ix in itertools.product(range(len(xs)), repeat=n):
        pr = math.prod(P[i] for i in ix)
        v, u = vec([float(xs[i]) for i in ix]), vec([float(ys[i]) for i in ix])
        for k in "vSK":
            acc[k] += pr * L.dcpp_sh_stat(k, v, None)
        acc["c"] += pr * L.dppp_sh_cov(v, u, None)
        L.vp_gsl_vector_free(v), L.vp_gsl_vector_free(u)
    what = "over all samples of %d from %s with weights %s" % (n, xs, c["p"])
    near(acc["v"], cm[2], "mean variance " + what, 1e-9, 1e-8)
    near(acc["c"], sum((x - mu) * (y - my) * p for x, y, p in zip(xs, ys, P)), "mean covariance " + what, 1e-9, 1e-8)
    if n > 2:
        near(acc["S"], cm[3], "mean skew " + what, 1e-9, 1e-8)
    if n > 3:
        near(acc["K"], cm[4], "mean kurtosis " + what, 1e-9, 1e-7)
    return ["nt"] if len(set(xs)) > 1 else []


FACETS = [Facet("moments", lambda t: case(), run, quick=4000), Facet("large moments", lambda t: G.large(case), run, quick=80), Facet("matrix", lambda t: st.builds(lambda m: {"m": m}, st.integers(1, 4).flatmap(lambda c: st.integers(1, 5).flatmap(lambda r: G.matrix(r, c, x_s)))), run_mat, quick=400),
          Facet("unbiased", lambda t: unb(), run_unb, quick=300)]
