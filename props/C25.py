"""Empirical distributions (apop_pmf), Kullback-Leibler divergence, and the entropy of models."""
import math
import numpy as np
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import models as MD
from models import MODELS, INF

RULE = ("pmf/draws: 1 to 12 observations (with many repeats) in the vector, the matrix, the text or several of them, with weights (some zero, of any total) or none. Non-trivial: at least two different observations, and a repeated one or unequal weights. "
        "kl: both models give some observation positive probability. entropy: every case. Distinct by the whole case.")
ASSUMPTIONS = ["all parts of the data set have the same number of rows", "weights are non-negative with a positive sum", "the data are not changed after the model was first used, as documented",
               "divergence and entropy by random draws are compared within six standard errors"]

V = st.sampled_from([0.0, 1.0, -1.0, 2.0, 2.5, 100.0])
T = st.sampled_from(["a", "b", "A", "", "c c"])
W = st.sampled_from([0.0, 1.0, 1.0, 2.0, 3.0, .25, 10.0, 1e-3])


@st.composite
def pdata(draw, text=True, hi=12):
    n = draw(st.integers(1, hi))
    parts = draw(st.sampled_from(["v", "m", "vm", "m", "v"] + (["t", "vt", "mt", "vmt"] if text else [])))
    k, tk = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    pool = draw(st.integers(1, 6))
    rows = [{"v": draw(V), "m": [draw(V) for _ in range(k)], "t": [draw(T) for _ in range(tk)]} for _ in range(pool)]
    pick = [draw(st.integers(0, pool - 1)) for _ in range(n)]
    d = {}
    if "v" in parts:
        d["v"] = [rows[i]["v"] for i in pick]
    if "m" in parts:
        d["m"] = [rows[i]["m"] for i in pick]
    if "t" in parts:
        d["t"] = [rows[i]["t"] for i in pick]
    if draw(st.integers(0, 2)):
        w = [draw(W) for _ in range(n)]
        if not sum(w):
            w[draw(st.integers(0, n - 1))] = 1.0
        d["w"] = w
    return d


def nrows(d):
    return len(d.get("v") or d.get("m") or d.get("t"))


def keys(d):
    return [((d["v"][i],) if d.get("v") else ()) + (tuple(d["m"][i]) if d.get("m") else ()) + (tuple(d["t"][i]) if d.get("t") else ()) for i in range(nrows(d))]


def nums(d, i):
    return ([d["v"][i]] if d.get("v") else []) + (list(d["m"][i]) if d.get("m") else [])


def take_rows(d, ix):
    return {k: [d[k][i] for i in ix] for k in ("v", "m", "t", "w") if d.get(k)}


def mass(d):
    w = d.get("w") or [1.0] * nrows(d)
    out = {}
    for k, x in zip(keys(d), w):
        out[k] = out.get(k, 0) + x / sum(w)
    return out


@st.composite
def pmf_c(draw):
    d = draw(pdata())
    n = nrows(d)
    qs = []
    for _ in range(draw(st.integers(1, 4))):
        ix = [draw(st.integers(0, n - 1)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
        q = take_rows(d, ix)
        q.pop("w", None)
        if draw(st.integers(0, 4)) == 0:      # one that is (most likely) not there
            j = draw(st.integers(0, len(ix) - 1))
            part = draw(st.sampled_from([p for p in "vmt" if p in q]))
            if part == "v":
                q["v"][j] = draw(st.sampled_from([7.0, 0.0, 2.5000001]))
            elif part == "m":
                q["m"] = [list(r) for r in q["m"]]
                q["m"][j][draw(st.integers(0, len(q["m"][j]) - 1))] = draw(st.sampled_from([7.0, 0.0, 2.5000001]))
            else:
                q["t"] = [list(r) for r in q["t"]]
                q["t"][j][draw(st.integers(0, len(q["t"][j]) - 1))] = draw(st.sampled_from(["zz", "a", "B"]))
        qs.append(q)
    return {"d": d, "q": qs, "scale": draw(st.sampled_from([1.0, 2.0, .5, 100.0])), "perm": draw(st.permutations(range(n))), "first": draw(st.sampled_from(["p", "cdf", "draw", "copy"])), "d2": draw(pdata()),
            "hand": draw(st.sampled_from([0, 0, 0, 1]))}


def one(q, i):
    return take_rows(q, [i])


def check_pmf(m, d, qs, what, cdf=True):
    P, ks = mass(d), keys(d)
    w = d.get("w") or [1.0] * len(ks)
    for q in qs:
        want = 1.0
        for k in keys(q):
            want *= P.get(k, 0.0)
        near(L.dpp_apop_p(mk(q), m), want, "probability of %s %s" % (keys(q), what), 1e-9, 1e-12)
        near(L.dpp_apop_log_likelihood(mk(q), m), math.log(want) if want else -INF, "log likelihood of %s %s" % (keys(q), what), 1e-9, 1e-9)
        if cdf:
            k = keys(q)[0]
            last = max([i for i, x in enumerate(ks) if x == k], default=-1)
            near(L.dpp_apop_cdf(mk(q), m), sum(w[:last + 1]) / sum(w), "CDF at %s %s" % (k, what), 1e-9, 1e-12)


def run_pmf(c):
    d, qs = c["d"], c["q"]
    n = nrows(d)
    dd = mk(d)
    m = L.ppii_sh_pmf(dd, 0, c["hand"])
    before = dump(dd)
    if d.keys() & set("vm"):        # text alone has no size for draws, which is marked as an error at set-up
        eq(chr(L.ip_sh_merror(m)).strip("\0"), "", "error mark of a PMF")
    if c["first"] == "draw" and d.keys() & set("vm"):
        L.ppiii_sh_draws(m, 1, max(len(nums(d, 0)), 1), 3)
    elif c["first"] == "cdf":
        L.dpp_apop_cdf(mk(one(d, 0)), m)
    elif c["first"] == "copy":
        m2 = L.pp_apop_model_copy(m)
        check_pmf(m2, d, qs, "of a copy")
        L.vp_apop_model_free(m2)
    check_pmf(m, d, qs, "")
    m3 = L.pp_apop_model_copy(m)
    check_pmf(m3, d, qs, "of a copy made after use")
    eq(dump(dd), before, "the data")
    # estimate the estimated model on other data
    m4 = L.ppp_apop_estimate(mk(c["d2"]), m)
    L.vp_apop_model_free(m)
    check_pmf(m4, c["d2"], [one(c["d2"], i) for i in range(nrows(c["d2"]))] + qs if set(c["d2"]) - {"w"} == set(d) - {"w"} and all(len(c["d2"][k][0]) == len(d[k][0]) for k in "mt" if k in d) else [one(c["d2"], i) for i in range(nrows(c["d2"]))], "of a PMF estimated a second time")
    check_pmf(m3, d, qs, "of a copy that outlived the original")
    # metamorphic: rows in another order, weights scaled; and compressed
    p = take_rows(d, c["perm"])
    if "w" in p:
        p["w"] = [x * c["scale"] for x in p["w"]]
    check_pmf(L.ppii_sh_pmf(mk(p), 0, 0), p, qs, "with the rows in another order")
    z = L.pp_sh_compress(mk(d))
    mz = L.ppii_sh_pmf(z, 0, 0)
    zd = dump(z)
    check(len(zd["w"]) == len(set(keys(d))), "rows after compression: %s", zd["w"])
    check_pmf(mz, d, qs, "after compression", cdf=False)
    # the CDF of the last row is one
    near(L.dpp_apop_cdf(mk(one(d, n - 1)), m3), 1.0, "CDF at the last row", 1e-12)
    w = d.get("w") or [1.0] * n
    P, ks = mass(d), keys(d)
    near(L.dpi_sh_model_entropy(m3, 0), -sum(x * math.log(x) for x in P.values() if x), "entropy of a PMF", 1e-9, 1e-9)
    labels = ["weights" if d.get("w") else "no weights", "+".join(k for k in "vmt" if d.get(k))]
    if len(set(ks)) > 1 and (len(set(ks)) < n or len(set(w)) > 1):
        labels.append("nt")
    return labels


# ---------------------------------------------------------------- draws
@st.composite
def draws_c(draw):
    d = draw(pdata(text=False, hi=20))
    return {"d": d, "idx": draw(st.sampled_from([0, 0, 1])), "u": draw(st.lists(st.floats(0, 1, exclude_max=True), max_size=5)), "eps": draw(st.sampled_from([0.0, 1e-9, -1e-9, 2.0 ** -32])), "seed": draw(st.integers(1, 10**6)),
            "hand": draw(st.sampled_from([0, 0, 0, 1])), "copy": draw(st.booleans())}


TOP = 1 - 2.0 ** -32


def run_draws(c):
    d, idx = c["d"], c["idx"]
    n = nrows(d)
    w = d.get("w") or [1.0] * n
    dd = mk(d)
    m = L.ppii_sh_pmf(dd, idx, c["hand"])
    if c["copy"]:
        m = L.pp_apop_model_copy(m)
    width = 1 if idx else len(nums(d, 0))
    if not c["hand"] and not idx:
        eq(L.ip_sh_get_dsize(m), width, "size of a draw")
    cum = np.cumsum(w) / sum(w)
    rows = [tuple(nums(d, i)) for i in range(n)]
    G = 400
    us = [0.0, TOP] + [min(max(float(x) + c["eps"], 0.0), TOP) for x in cum] + [min(x, TOP) for x in c["u"]]
    grid = [(i + .5) / G for i in range(G)]
    a = arr(L.ppiPi_sh_script_draws(m, len(us) + G, us + grid, width))
    check(not a[:, width].any(), "drawing failed")
    ok = {i for i in range(n) if w[i]}
    okrows = {rows[i] for i in ok}
    for u, r in zip(us + grid, a):
        if idx:
            check(r[0] in ok, "drew row %s (weights %s, uniform %r)", r[0], w, u)
        else:
            check(tuple(r[:width]) in okrows, "drew %s, which is not a row of positive weight of %s (uniform %r)", list(r[:width]), d, u)
    if (a[len(us):, width + 1] == 1).all():     # one uniform per draw: an even grid of uniforms gives the frequencies to within rounding
        def freq(a, slack, what):
            if idx:
                for i in range(n):
                    check(abs((a[:, 0] == i).sum() - len(a) * w[i] / sum(w)) <= slack(w[i] / sum(w)), "row %s of %s drawn %s times of %s %s", i, w, int((a[:, 0] == i).sum()), len(a), what)
            else:
                tot = {}
                for i in range(n):
                    tot[rows[i]] = tot.get(rows[i], 0) + w[i] / sum(w)
                for k, p in tot.items():
                    got = int((a[:, :width] == np.array(k)).all(axis=1).sum())
                    check(abs(got - len(a) * p) <= slack(p) * (rows.count(k) if "grid" in what else 1), "%s (probability %s) drawn %s times of %s %s", list(k), p, got, len(a), what)
        freq(a[len(us):], lambda p: 2, "over a grid of uniforms")
    else:
        freq = None
    N = 1500
    a = arr(L.ppiii_sh_draws(m, N, width, c["seed"]))
    check(not a[:, width].any(), "drawing failed")
    for r in a:
        check((r[0] in ok) if idx else tuple(r[:width]) in okrows, "drew %s from %s", list(r), d)
    if freq:
        freq(a, lambda p: 6.5 * math.sqrt(N * p * max(1 - p, 0)) + 4, "at random")
    labels = ["index" if idx else "rows", "weights" if d.get("w") else "no weights"]
    if len(set(rows)) > 1 and (len(set(rows)) < n or len(set(w)) > 1):
        labels.append("nt")
    return labels


# ---------------------------------------------------------------- divergence
UNI = ["normal", "exponential", "gamma", "uniform", "poisson", "bernoulli", "lognormal", "beta"]


@st.composite
def kl_c(draw):
    kind = draw(st.sampled_from(["pp", "pp", "pp", "pm", "mm", "uu"]))
    c = {"k": kind, "seed": draw(st.sampled_from([0, 1, 77])), "bad": draw(st.sampled_from([0] * 12 + [1, 2]))}
    d = draw(pdata(text=kind == "pp"))
    c["d"] = d
    if kind == "pp":
        n = nrows(d)
        ix = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=10)) + (list(range(n)) if draw(st.booleans()) else [])
        e = take_rows(d, draw(st.permutations(ix)))
        e.pop("w", None)
        if draw(st.booleans()):
            e["w"] = [draw(W.filter(bool)) for _ in ix]
        c["e"] = e
    elif kind == "uu":
        lo, hi = draw(st.integers(-20, 20)) / 4, draw(st.integers(4, 24)) / 4
        c["a"] = [[lo, lo + hi], [lo + draw(st.integers(-2, 2)), 0.0]]
        c["a"][1][1] = max(c["a"][1][0] + 0.5, lo + hi + draw(st.integers(-2, 2)))
    elif kind == "pm":
        c["p"] = [draw(st.floats(-2, 2).map(lambda x: round(x, 2))), draw(st.sampled_from([.5, 1.0, 30.0]))]
    else:
        a = draw(st.sampled_from(UNI))
        c["a"] = [a, list(draw(MODELS[a].params)), list(draw(MODELS[a].params))]
        if a == "uniform" or draw(st.integers(0, 5)) == 0:
            c["a"][2] = c["a"][1]
    return c


def run_kl(c):
    if c["bad"]:
        m = L.ppii_sh_pmf(mk(c["d"]), 0, 0)
        got = L.dppii_sh_kl(None, m, 0, 0) if c["bad"] == 1 else L.dppii_sh_kl(m, None, 0, 0)
        check(got != got, "divergence involving no model: %s", got)
        return ["bad"]
    d = c["d"]
    P = mass(d)
    if c["k"] == "mm":
        name, p, q = c["a"]
        M = MODELS[name]
        N = 3000
        a, b = MD.model(name, p), MD.model(name, q)
        got = L.dppii_sh_kl(a, b, N, c["seed"])
        x = np.asarray(M.dist(p).rvs(20000, random_state=5), float)
        if name in ("gamma", "beta"):
            x = x[(x > 1e-300) & (x < 1 if name == "beta" else True)]
        if min(M.ll(t, q) for t in x) < -600:     # the probability itself underflows
            return ["too far"]
        v = np.array([M.ll(t, p) - M.ll(t, q) for t in x])
        v = v[np.isfinite(v)]
        if p == q:
            near(got, 0.0, "divergence of a distribution from itself", 0, 1e-9)
            return ["self"]
        if len(v) < 1000 or v.std() > 50 * (abs(v.mean()) + 1) or np.abs(v - v.mean()).max() > 25 * v.std():
            return ["wild"]
        se = v.std() * math.sqrt(1 / N + 1 / len(v))
        near(got, float(v.mean()), "divergence of %s%s from %s" % (name, p, q), 1e-9, 6.5 * se + 12 * np.abs(v - v.mean()).max() / N + 1e-9)
        return ["random", "nt"]
    if c["k"] == "uu":
        (a, b), (e, f) = c["a"]
        got = L.dppii_sh_kl(MD.model("uniform", [a, b]), MD.model("uniform", [e, f]), 500, c["seed"])
        if e <= a and b <= f:
            near(got, math.log((f - e) / (b - a)), "divergence of a Uniform from a wider one", 1e-9, 1e-9)
            return ["nested", "nt"]
        check(math.isinf(got), "divergence of a Uniform from one that does not cover it: %s", got)
        return ["uncovered", "nt"]
    m = L.ppii_sh_pmf(mk(d), 0, 0)
    if c["k"] == "pm":
        dens = lambda k: math.exp(sum(MODELS["normal"].ll(x, c["p"]) for x in k))
        if any(P[k] and dens(k) < 1e-250 for k in P):
            return ["too far"]
        got = L.dppii_sh_kl(m, MD.model("normal", c["p"]), 0, c["seed"])
        near(got, sum(P[k] * math.log(P[k] / dens(k)) for k in P if P[k]), "divergence of a PMF from a Normal", 1e-9, 1e-9)
        return ["to a model"] + (["nt"] if len(P) > 1 else [])
    Q = mass(c["e"])
    m2 = L.ppii_sh_pmf(mk(c["e"]), 0, 0)
    near(L.dppii_sh_kl(m, m, 0, c["seed"]), 0.0, "divergence of a PMF from itself", 0, 1e-10)
    got = L.dppii_sh_kl(m, m2, 0, c["seed"])
    if any(P[k] and not Q.get(k) for k in P):
        eq(got, -INF, "divergence of a PMF from one that lacks one of its observations")
        return ["unsynced"]
    near(got, sum(P[k] * math.log(P[k] / Q[k]) for k in P if P[k]), "divergence of one PMF from another", 1e-9, 1e-9)
    check(got >= -1e-12, "negative divergence %s", got)
    return ["two PMFs"] + (["nt"] if len([k for k in P if P[k]]) > 1 else [])


# ---------------------------------------------------------------- entropy
@st.composite
def ent_c(draw):
    a = draw(st.sampled_from(["normal"] + UNI))
    return {"a": a, "p": list(draw(MODELS[a].params)), "n": draw(st.sampled_from([0, 300, 4000]))}


def run_ent(c):
    M, p = MODELS[c["a"]], c["p"]
    got = L.dpi_sh_model_entropy(MD.model(c["a"], p), c["n"])
    if c["a"] == "normal":
        near(got, math.log(p[1]) + .5 * (1 + math.log(2 * math.pi)), "entropy of a Normal(%s)" % p, 1e-9, 1e-9)
        return ["normal", "nt"]
    N = c["n"] or 1000
    x = np.asarray(M.dist(p).rvs(20000, random_state=5), float)
    if c["a"] in ("gamma", "beta"):
        x = x[(x > 1e-300) & (x < 1 if c["a"] == "beta" else True)]
    v = -np.array([M.ll(t, p) for t in x])
    if not np.isfinite(v).all() or np.abs(v - v.mean()).max() > 25 * v.std() + 1e-12:
        return ["wild"]
    near(got, float(v.mean()), "entropy of %s%s" % (c["a"], p), 1e-9, 6.5 * v.std() * math.sqrt(1 / N + 1 / len(v)) + 12 * np.abs(v - v.mean()).max() / N + 1e-9)
    return ["random", "nt"]


FACETS = [Facet("pmf", lambda tier: pmf_c(), run_pmf, quick=1600), Facet("draws", lambda tier: draws_c(), run_draws, quick=700),
          Facet("kl", lambda tier: kl_c(), run_kl, quick=900), Facet("entropy", lambda tier: ent_c(), run_ent, quick=240)]
