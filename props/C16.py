"""Normalising, percentiles, distances, entropy, summaries, element-wise functions."""
import math
from fractions import Fraction as Fr
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Vectors of 1 to 12 (percentiles: to 260) finite numbers, contiguous and strided, with ties, constants and offsets; every kind of normalisation in place and not; every rounding; every metric with norms 0.5 to 5, triples of vectors for the "
        "triangle inequality; probability vectors, counts and invalid ones; data sets with and without names and weights. Non-trivial: at least three distinct values. Distinct by the whole case.")
ASSUMPTIONS = ["a normalisation whose divisor is zero is not promised", "whether a bound itself is inside the bounds is not promised (documentation and code differ)", "the percentiles in a summary of weighted data are not promised"]
NAN = float("nan")

x_s = st.one_of(st.integers(-9, 9), st.integers(-2000, 2000).map(lambda x: x / 8), st.sampled_from([0.1, 0.7, 1e-3, 1e6])).map(float)


def mkv(x, s):
    return L.piP_sh_vec_strided(len(x), x) if s else vec(x)


@st.composite
def norm_c(draw):
    n = draw(G.size(1, 12, 30))
    x = draw(st.one_of(G.vector(n, x_s), G.vector(n, x_s), G.vector(n, st.integers(0, 5).map(float)), x_s.map(lambda a: [a] * n)))
    return {"x": x, "type": draw(st.sampled_from(["", "p", "r", "s", "m"])), "out": draw(st.integers(0, 1)), "s": draw(st.booleans())}


def run_norm(c):
    x = c["x"]
    n = len(x)
    f = [Fr(t) for t in x]
    v = mkv(x, c["s"])
    t = c["type"] or "p"
    mu = sum(f) / n
    sd = math.sqrt(sum((a - mu) ** 2 for a in f) / (n - 1)) if n > 1 else 0
    mag = max(map(abs, x))
    if t == "p":
        ok = abs(sum(f)) > 1e-9 * mag and sum(f) != 0
        w = lambda: [float(a / sum(f)) for a in f]
        tol = 1e-14 * n * (mag / abs(float(sum(f)))) ** 2 if ok else 0
    elif t == "r":
        ok = max(x) > min(x)
        w = lambda: [float((a - min(f)) / (max(f) - min(f))) for a in f]
        tol = 1e-14 * mag / (max(x) - min(x)) if ok else 0
    elif t == "s":
        ok = n > 1 and sd > 1e-9 * mag
        w = lambda: [float(a - mu) / sd for a in f]
        tol = 1e-13 * n * mag / sd if ok else 0
    else:
        ok = True
        w = lambda: [float(a - mu) for a in f]
        tol = 1e-14 * n * mag
    r = L.ppci_sh_normalize(v, c["type"] or "\0", c["out"])
    got = dvec(r)
    if c["out"]:
        check(r != v, "the result is the input itself")
        eq(dvec(v), x, "the input of a normalisation into a new vector")
    if not ok:
        return ["undefined"]
    near(got, w(), "normalisation %s of %s" % (c["type"], x), 1e-11, tol)
    if t == "r":
        eq([min(got), abs(max(got) - 1) <= 1e-12], [0.0, True], "range of %s" % got)
    if t == "s":
        near(sum(got) / n, 0.0, "mean", 0, 1e-9 + tol)
        near(sum(a * a for a in got) / (n - 1), 1.0, "variance", 1e-8 + 10 * tol, 0)
    if t == "p":
        near(sum(got), 1.0, "sum", 1e-9 + tol * n, 0)
    for i in range(n):
        for j in range(max(0, i - 20), i):
            if x[i] == x[j]:
                eq(got[i], got[j], "images of equal elements")
    return ["nt"] if len(set(x)) > 2 else []


@st.composite
def pct_c(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([21, 50, 51, 99, 100, 101, 102, 201, 202]), st.integers(13, 260)))
    if n > 12:
        a, b, m = draw(st.integers(1, 97)), draw(st.integers(0, 50)), draw(st.integers(2, 400))
        x = [float((a * i * i + b * i) % m) / 4 for i in range(n)]
    else:
        x = draw(G.vector(n, x_s))
    return {"x": x, "r": draw(st.sampled_from(["", "u", "d", "a"])), "s": draw(st.booleans())}


def run_pct(c):
    x, r = c["x"], c["r"] or "d"
    n = len(x)
    v = mkv(x, c["s"])
    p = L.pvc_sh_percentiles if False else L.Ppc_sh_percentiles
    g = p(v, c["r"] or "\0")
    got = [g[i] for i in range(101)]
    s = sorted(x)
    for i in range(101):
        k, rem = divmod(i * (n - 1), 100)
        w = s[k] if not rem or r == "d" else s[k + 1] if r == "u" else (s[k] + s[k + 1]) / 2
        eq(got[i], w, "percentile %d (%s) of %d numbers" % (i, r, n))
    eq([got[0], got[100]], [s[0], s[-1]], "ends")
    check(all(a <= b for a, b in zip(got, got[1:])), "percentiles %s decrease", got)
    eq(dvec(v), x, "the input afterwards")
    return ["nt"] if len(set(x)) > 2 else []


@st.composite
def dist_c(draw):
    n = draw(G.size(1, 7, 40))
    m = draw(st.sampled_from(["", "e", "E", "m", "M", "d", "D", "s", "S", "l", "L", "l"]))
    x = [draw(G.vector(n, x_s)) for _ in range(3)]
    if draw(st.integers(0, 4)) == 0:
        x[1] = list(x[0])
    return {"x": x, "m": m, "p": draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0, 4.5])) if m in ("l", "L") else 0.0, "s": draw(st.booleans()), "bad": draw(st.integers(1, 3))}


def run_dist(c):
    m, p = c["m"].lower() or "e", c["p"] or 2.0
    X = c["x"]

    def want(a, b):
        d = [abs(Fr(s) - Fr(t)) for s, t in zip(a, b)]
        if m == "e":
            return math.sqrt(sum(t * t for t in d))
        if m == "m":
            return float(sum(d))
        if m == "d":
            return float(any(d))
        if m == "s":
            return float(max(d))
        return sum(float(t) ** p for t in d) ** (1 / p)
    V = [mkv(x, c["s"] and i == 1) for i, x in enumerate(X)]
    D = lambda a, b: L.dppcd_sh_distance(a, b, c["m"] or "\0", c["p"])
    got = {}
    for i in range(3):
        for j in range(3):
            got[i, j] = D(V[i], V[j])
            near(got[i, j], want(X[i], X[j]), "distance %s (%g) of %s and %s" % (m, p, X[i], X[j]), 1e-12, 0 if X[i] != X[j] else 0)
            check((got[i, j] == 0) == (X[i] == X[j]), "distance %s between %s and %s", got[i, j], X[i], X[j])
        near(D(V[i], None), want(X[i], [0.0] * len(X[i])), "length %s of %s" % (m, X[i]), 1e-12, 0)
    for i in range(3):
        for j in range(3):
            eq(got[i, j], got[j, i], "distance in the two directions")
            for k in range(3):
                if m != "l" or p >= 1:
                    check(got[i, j] <= (got[i, k] + got[k, j]) * (1 + 1e-12), "triangle inequality: %s", [got[i, j], got[i, k], got[k, j]])
    # lengths of vectors of different sizes in a row
    for n in (c["bad"], len(X[0]), c["bad"] + 4):
        y = [2.0] * n
        near(D(vec(y), None), want(y, [0.0] * n), "length of a vector of another size", 1e-12, 0)
    eq(D(V[0], vec([0.0] * (len(X[0]) + c["bad"]))), NAN, "distance of vectors of different sizes")
    eq(L.dppcd_sh_distance(V[0], V[1], "z", 0.0), NAN, "distance by a metric there is not")
    eq([dvec(v) for v in V], X, "the inputs afterwards")
    return ["nt"] if len(set(X[0])) > 2 and X[0] != X[1] else []


@st.composite
def ent_c(draw):
    n = draw(st.integers(1, 8))
    e = draw(st.sampled_from([st.integers(0, 9).map(float), st.sampled_from([0.0, 0.25, 1.0, 1e-9, 0.5]), st.integers(-1, 9).map(float)]))
    return {"x": draw(G.vector(n, e)), "k": draw(st.sampled_from([1.0, 0.5, 3.0, 100.0])), "s": draw(st.booleans())}


def run_ent(c):
    x = [a * c["k"] for a in c["x"]]
    t = sum(x)
    g = L.dcpp_sh_stat("e", mkv(x, c["s"]), None)
    if t < 0 or (t > 0 and min(x) < 0):
        eq(g, NAN, "entropy of %s" % x)
        return ["negative"]
    if t == 0:
        if min(x) == 0:
            eq(g, 0.0, "entropy of %s" % x)
        return ["zero"]
    w = -sum(a / t * math.log(a / t) for a in x if a)
    near(g, w, "entropy of %s" % x, 1e-12, 1e-13)
    near(L.dcpp_sh_stat("e", mkv(x + [0.0], c["s"]), None), w, "entropy with a zero added", 1e-12, 1e-13)
    check(-1e-12 <= g <= math.log(len(x)) + 1e-12, "entropy %s outside its bounds", g)
    y = [a / 2 for a in x for _ in range(2)]
    near(L.dcpp_sh_stat("e", vec(y), None), w + math.log(2), "entropy of halves", 1e-12, 1e-12)
    return ["nt"] if len(set(x)) > 2 else []


@st.composite
def sum_c(draw):
    r, k = draw(st.integers(2, 9)), draw(st.integers(1, 4))
    d = {"m": draw(G.matrix(r, k, x_s))}
    if draw(st.booleans()):
        d["cn"] = ["col%d" % i for i in range(k)]
    if draw(st.integers(0, 2)) == 0:
        d["rn"] = ["r%d" % i for i in range(r)]
    if draw(st.integers(0, 2)) == 0:
        d["title"] = draw(st.sampled_from(["a title", "%s", "", "x" * 300]))
    if draw(st.integers(0, 2)) == 0:
        d["w"] = draw(G.vector(r, st.integers(1, 4).map(float)))
    if draw(st.booleans()):
        d["v"] = draw(G.vector(r, x_s))
    return d


def run_sum(d):
    p = mk(d)
    before = dump(p, 9)
    D = dump(L.pp_sh_summarize(p))
    eq(D["n"]["c"], ["mean", "std dev", "variance", "min", "median", "max"], "column names")
    eq(D["n"]["r"], d.get("cn", []), "row names")
    eq(D["n"]["title"], "summary for " + d["title"] if d.get("title") else None, "title")
    eq(len(D["m"]), len(d["m"][0]), "rows of the summary")
    w = [Fr(x) for x in d.get("w") or [1.0] * len(d["m"])]
    W = sum(w)
    for row, x in zip(D["m"], zip(*d["m"])):
        f = [Fr(a) for a in x]
        mu = sum(a * b for a, b in zip(f, w)) / W
        var = float(sum(b * (a - mu) ** 2 for a, b in zip(f, w)) / (W - 1))
        mag = max(map(abs, x))
        near(row[0], float(mu), "mean", 1e-12, 1e-13 * mag)
        near(row[2], var, "variance", 1e-9, 1e-12 * mag * mag)
        if var > 1e-9 * mag * mag:
            near(row[1], math.sqrt(var), "standard deviation", 1e-9, 1e-6 * mag if "w" in d else 1e-12 * mag)
            near(row[1] ** 2, row[2], "standard deviation squared", 1e-9, 0)
        if "w" not in d:
            s = sorted(x)
            eq([row[3], row[4], row[5]], [s[0], s[50 * (len(s) - 1) // 100], s[-1]], "minimum, median, maximum")
    eq(dump(p, 9), before, "the input afterwards")
    return ["nt"] if len(set(x[0] for x in d["m"])) > 2 else []


@st.composite
def elt_c(draw):
    n = draw(st.integers(1, 9))
    return {"x": draw(G.vector(n, st.one_of(x_s, st.sampled_from([0.0, -1.0, float("nan"), float("inf"), float("-inf"), 700.0])))), "s": draw(st.booleans()), "max": draw(st.sampled_from([0.0, 3.5, 100.25, 1e7])), "inplace": draw(st.integers(0, 2))}


def run_elt(c):
    x = c["x"]
    big = [abs(a) for a in x if math.isfinite(a)]
    for b in set(big + [max(big) * 1.5] if big else []):
        if b:
            eq(bool(L.ipd_sh_bounded(mkv(x, c["s"]), b)), all(math.isfinite(a) and abs(a) <= b for a in x), "boundedness of %s by %s" % (x, b))
    for k, f in (("l", lambda a: math.log(a) if a > 0 else (-math.inf if a == 0 else NAN)), ("t", lambda a: math.log10(a) if a > 0 else (-math.inf if a == 0 else NAN)), ("e", lambda a: math.exp(a) if a < 709 else math.inf)):
        v = mkv(x, c["s"])
        L.vcp_sh_vfn(k, v)
        near(dvec(v), [a if a != a else f(a) for a in x], "function %s of %s" % (k, x), 1e-13, 0)
    v = mkv(x, c["s"])
    g = L.ipd_sh_bounded(v, c["max"])
    lim = c["max"] or math.inf
    if not any(abs(a) == lim for a in x) or not all(math.isfinite(a) for a in x):
        eq(bool(g), all(math.isfinite(a) and abs(a) <= lim for a in x), "boundedness of %s by %s" % (x, lim))
    eq(L.ipd_sh_bounded(None, c["max"]), 1, "boundedness of nothing")
    return ["nt"] if len(set(x)) > 2 else []


FACETS = [Facet("normalize", lambda t: norm_c(), run_norm, quick=2000), Facet("large normalize", lambda t: G.large(norm_c), run_norm, quick=80), Facet("percentiles", lambda t: pct_c(), run_pct, quick=1500), Facet("distance", lambda t: dist_c(), run_dist, quick=1500), Facet("large distance", lambda t: G.large(dist_c), run_dist, quick=80),
          Facet("entropy", lambda t: ent_c(), run_ent, quick=800), Facet("summary", lambda t: sum_c(), run_sum, quick=1000), Facet("elements", lambda t: elt_c(), run_elt, quick=800)]
