"""Resampled covariances and parameter distributions, and filling in missing data."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from engine import Facet, Bad
from ap import *
import gens as G
from models import MODELS
from props.C26 import R3, KEEP
from props.C23 import closed_ref

RULE = ("jackknife, bootstrap: a model whose estimate is the harness's own function, which logs every data set it is handed and returns statistics of it, over data sets with vectors, matrices, weights, text and names; parameters as vectors, matrices, both, over pages, with information pages; missing values in chosen replicates. The replicates are checked to be rows of the original, and the covariance recomputed from the log. "
        "library: leave-one-out for the library's own models and regressions. uniform: the rows drawn. parmodel: the distribution of parameters. impute: multivariate Normals, Normals, against the conditional mode, by imputation and by prediction. threads: the same data resampled from several threads. Non-trivial: at least three observations; at least one missing and one present cell in a row. Distinct by the whole case.")
ASSUMPTIONS = ["row names of the replicates are not specified", "counts of rows drawn are held to the 1e-9 tail of the chi-squared", "imputed values are compared with the mode as far as the search's documented default tolerance (a gradient of 0.2) can tell them apart"]

EST = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p)
FREE = lambda a, b: st.floats(a, b).map(R3)


# ------------------------------------------------------------ estimators of our own
def stat(rows, size):
    """smooth statistics of a list of rows, each a list of numbers then a weight then text"""
    out = []
    n = len(rows)
    cols = list(zip(*[r[0] for r in rows])) if n else []
    for k in range(size):
        if cols:
            col = cols[k % len(cols)]
            w = [1 if r[1] is None else r[1] for r in rows]
        else:
            col, w = [float(len("".join(r[2]))) for r in rows], [1] * n
        m = sum(a * b for a, b in zip(w, col))
        out.append(m if k % 3 == 0 else (m / n) ** 2 if k % 3 == 1 else sum(x * x for x in col) + (sum(len(s) for r in rows for s in r[2]) if n else 0))
    return out


def rows_of(d):
    n = max(len(d["v"] or []), len(d["m"] or []), len(d["t"] or []))
    return [([d["v"][i]] if d["v"] else []) + list(d["m"][i] if d["m"] else []) for i in range(n)], [d["w"][i] if d["w"] else None for i in range(n)], [list(d["t"][i]) if d["t"] else [] for i in range(n)]


def triples(d):
    if d is None:
        return []
    a, b, c = rows_of(d)
    return [(tuple(x), y, tuple(z)) for x, y, z in zip(a, b, c)]


def estimator(shape, page, info, names, nan_at, log, k=None):
    """shape: (vector, rows, columns). nan_at(call index) -> None, 'all' or an index of the parameter that is missing"""
    size = shape[0] + shape[1] * shape[2]

    def f(d, m):
        i = len(log)
        dd = dump(d) if d else None
        rows = triples(dd)
        x = stat(rows, size + page) if rows else [math.sin(3 * i + j) * (j + 1) for j in range(size + page)]
        bad = nan_at(i)
        if bad is not None:
            x = [math.nan if bad == "all" or bad % (size + page) == j else v for j, v in enumerate(x)]
        log.append((rows, x, dump(d) if False else (dd["t"] if dd else None)))
        rn, cn, vn = names
        L.vpiPiPiiii_sh_put(m, size, x[:size], page, x[size:], info, rn, cn, vn)
    cb = EST(f)
    KEEP.append(cb)
    mod = L.ppiii_sh_est_model(C.cast(cb, C.c_void_p), *shape)
    return mod, size + page


SHAPES = st.sampled_from([(1, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1, 2), (0, 2, 2), (0, 2, 1), (2, 2, 2), (1, 1, 1)])
WORD = st.sampled_from(["", "a", "bb", "x y", "%s"])


@st.composite
def dataset(draw, lo=2, hi=9):
    n = draw(st.integers(lo, hi))
    num = st.one_of(st.integers(-9, 9).map(float), FREE(-50, 50))
    d = {}
    how = draw(st.sampled_from(["v", "m", "m", "vm", "t", "mt", "vmt"]))
    if "v" in how:
        d["v"] = [draw(num) for _ in range(n)]
    if "m" in how:
        k = draw(st.integers(1, 3))
        d["m"] = [[draw(num) for _ in range(k)] for _ in range(n)]
    if "t" in how:
        k = draw(st.integers(1, 2))
        d["t"] = [[draw(WORD) for _ in range(k)] for _ in range(n)]
    if draw(st.booleans()):
        d["w"] = [draw(st.integers(0, 5).map(float)) for _ in range(n)]
    if draw(st.booleans()):
        d["rn"] = ["row %i" % i for i in range(n)]
    if draw(st.booleans()):
        d["title"] = "the title"
        if "m" in how:
            d["cn"] = ["col%i" % i for i in range(k if "t" not in how else len(d["m"][0]))]
    if draw(st.integers(0, 4)) == 0:
        d["more"] = {"v": [1.0, 2.0], "title": "another page"}
    return d


@st.composite
def jack_c(draw):
    return {"d": draw(dataset()), "shape": draw(SHAPES), "page": draw(st.sampled_from([0, 0, 0, 1, 2])), "info": draw(st.sampled_from([0, 0, 7])), "names": draw(st.booleans()), "given": draw(st.booleans())}


def counter(rows):
    c = {}
    for r in rows:
        c[r] = c.get(r, 0) + 1
    return c


def cov(x):
    x = np.array(x, float)
    n = len(x)
    if n < 2:
        return np.full((x.shape[1],) * 2, np.nan)
    with np.errstate(all="ignore"):
        y = x - x.mean(axis=0)
        return y.T @ y / (n - 1)


def cmpcov(got, want, scale, what):
    want = np.asarray(want)
    check(got is not None and len(got) == len(want) and len(got[0]) == len(want), "%s: the wrong size: %s", what, got)
    for i in range(len(want)):
        for j in range(len(want)):
            a, b = got[i][j], float(want[i][j])
            if math.isnan(b):
                check(math.isnan(a), "%s at %s,%s: got %s, expected NaN", what, i, j, a)
            else:
                tol = 1e-9 * math.sqrt(scale[i] * scale[j]) + 1e-9 * abs(b)
                check(abs(a - b) <= tol, "%s at %s,%s: got %s, expected %s", what, i, j, a, b)


def run_jack(c):
    log = []
    mod, size = estimator(c["shape"], c["page"], c["info"], (c["shape"][0], c["shape"][2], 1) if c["names"] else (0, 0, 0), lambda i: None, log)
    d = mk(c["d"])
    before = dump(d, 1)
    orig = triples(before)
    n = len(orig)
    use, mb = mod, None
    if c["given"]:
        use = L.ppp_apop_estimate(d, mod)
        log.clear()
        mb = dump(L.pp_sh_params(use))
    out = L.ppp_sh_jack(d, use)
    eq(dump(d, 1), before, "the data after the jackknife")
    if c["given"]:
        eq(dump(L.pp_sh_params(use)), mb, "the parameters of the model given")
    else:
        check(L.pp_sh_params(mod) in (None, 0), "the model given now has parameters")
    if not c["given"]:
        check(log and log[0][0] == orig, "the first estimate is not of the whole data set")
        log.pop(0)
    check(len(log) == n, "%s estimates for %s observations", len(log), n)
    subs = [tuple(sorted(counter(l[0]).items(), key=repr)) for l in log]
    want = []
    for i in range(n):
        want.append(tuple(sorted(counter(orig[:i] + orig[i + 1:]).items(), key=repr)))
    check(sorted(subs, key=repr) == sorted(want, key=repr), "the replicates are not the data less each observation: %s", subs)
    est = np.array([l[1] for l in log])
    cmpcov(dump(out)["m"], cov(est) * (n - 1) ** 2 / n, 1 + (np.abs(est).max(axis=0) * n) ** 2, "the jackknife covariance")
    return ["nt" if n >= 3 else "two", "given" if c["given"] else "fresh", "page" if c["page"] else "one page"]


@st.composite
def boot_c(draw):
    nan = draw(st.sampled_from(["none", "none", "some", "some", "first", "all", "most"]))
    it = draw(st.integers(1, 12))
    at = sorted(draw(st.sets(st.integers(0, 2 * it), max_size=it))) if nan == "some" else [0] if nan == "first" else list(range(4 * it)) if nan == "all" else [i for i in range(4 * it) if i % draw(st.integers(3, 5))] if nan == "most" else []
    return {"d": draw(st.one_of(dataset(1, 8), dataset(1, 8), dataset(1, 8), st.none())), "shape": draw(SHAPES), "page": draw(st.sampled_from([0, 0, 0, 1, 2])), "info": draw(st.sampled_from([0, 0, 7])), "names": draw(st.booleans()),
            "at": at, "which": draw(st.sampled_from(["all", 0, 1, 2])), "ign": draw(st.sampled_from(["", "n", "y", "y"])), "it": it, "seed": draw(st.integers(-1, 40)), "store": draw(st.booleans()), "given": draw(st.booleans())}


def run_boot(c):
    log = []
    at = set(c["at"])
    mod, size = estimator(c["shape"], c["page"], c["info"], (c["shape"][0], c["shape"][2], 1) if c["names"] else (0, 0, 0), lambda i: c["which"] if i in at else None, log)
    d = mk(c["d"]) if c["d"] else None
    before = dump(d, 1) if d else None
    orig = triples(before)
    n, it = len(orig), c["it"]
    use, mb = mod, None
    if c["given"] and d and not at:
        use = L.ppp_apop_estimate(d, mod)
        log.clear()
        mb = dump(L.pp_sh_params(use))
    store = (C.c_void_p * 1)(12345)
    out = L.pppiicp_sh_boot(d, use, c["seed"], it, c["ign"], C.addressof(store) if c["store"] else None)
    if d:
        eq(dump(d, 1), before, "the data after the bootstrap")
    if mb:
        eq(dump(L.pp_sh_params(use)), mb, "the parameters of the model given")
    for l in log:
        check(len(l[0]) == n, "a replicate of %s rows from data of %s", len(l[0]), n)
        for r in l[0]:
            check(r in orig, "a replicate holds %s, which is no row of the data", r)
    isnan = [any(math.isnan(v) for v in l[1]) for l in log]
    o = dump(out)
    if c["ign"] == "y":
        good = [l[1] for l, b in zip(log, isnan) if not b]
        bad = sum(isnan)
        check(len(good) == it or bad >= it, "stopped with %s of %s replicates and %s thrown away", len(good), it, bad)
        check(len(good) <= it and bad <= it + 1, "%s replicates of %s, %s thrown away", len(good), it, bad)
        short_ = len(good) < it
        check((o["err"] == "N") == short_ or (not short_ and bad >= it), "%s replicates of %s: error mark %s", len(good), it, o["err"])
    else:
        check(len(log) == it, "%s estimates for %s iterations", len(log), it)
        good = [l[1] for l in log]
        short_ = False
        check(o["err"] in ("", "\0", None), "error mark %s", o["err"])
    if good:
        g = np.array(good)
        with np.errstate(all="ignore"):
            sc = 1 + np.nan_to_num(np.abs(g)).max(axis=0) ** 2
        cmpcov(o["m"], cov(g), sc, "the bootstrap covariance")
        if c["store"]:
            s = dump(store[0])
            check(same(s["m"], good), "the replicates stored: got %s, expected %s", s["m"], good)
            if c["names"] and not c["page"]:
                v, r, k = c["shape"]
                want = ["r%i" % i for i in range(v)] if v and not r else ["c%i" % i for i in range(k)] if r == 1 and not v and k > 1 else None
                if want:
                    eq(s["n"]["c"], want, "names of the columns")
                    eq(o["n"]["c"], want, "names of the covariance's columns")
                    eq(o["n"]["r"], want, "names of the covariance's rows")
    elif c["store"]:
        check(store[0] in (None, 0), "replicates stored, though there are none")
    if c["seed"] >= 0 and not at and d:
        log2, l0 = log[:], len(log)
        L.pppiicp_sh_boot(d, use, c["seed"], it, c["ign"], None)
        check([x[0] for x in log[l0:]] == [x[0] for x in log2], "the same seed drew different rows")
    return ["nt" if n >= 3 else "small", "nan" if any(isnan) else "clean", "short" if short_ else "full", "ign:" + c["ign"]]


# ------------------------------------------------------------ rows are drawn evenly and independently
@st.composite
def uni_c(draw):
    return {"n": draw(st.one_of(st.integers(2, 6), st.integers(7, 60))), "it": draw(st.sampled_from([300, 600])), "seed": draw(st.integers(0, 10**6)), "def": draw(st.integers(0, 9)) == 0}


def run_uni(c):
    log = []
    n = c["n"]
    mod, size = estimator((1, 0, 0), 0, 0, (0, 0, 0), lambda i: None, log)
    d = mk({"v": [float(i) for i in range(n)]})
    it = 1000 if c["def"] else max(c["it"], 20 * n)
    L.pppiicp_sh_boot(d, mod, c["seed"], -1 if c["def"] else it, "", None)
    check(len(log) == it, "%s iterations, expected %s", len(log), it)
    draws = np.array([[int(r[0][0]) for r in l[0]] for l in log])

    def chi(tab, what):
        e = tab.sum() / tab.size
        x = float(((tab - e) ** 2 / e).sum())
        check(stats.chi2.sf(x, tab.size - 1) > 1e-9, "%s: counts %s", what, tab.tolist())
    chi(np.bincount(draws.ravel(), minlength=n), "rows drawn")
    for j in range(n):
        chi(np.bincount(draws[:, j], minlength=n), "rows drawn to place %i" % j)
    j = c["seed"] % n
    k = (j + 1) % n
    if it >= 5 * n * n:
        chi(np.bincount(draws[:, j] * n + draws[:, k], minlength=n * n), "pairs of rows drawn")
    if it > 50 * n * n / 6:
        chi(np.bincount(draws[:-1, 0] * n + draws[1:, 0], minlength=n * n), "rows drawn in successive replicates")
    return ["nt" if n > 2 else "two"]


# ------------------------------------------------------------ models of the library
@st.composite
def lib_c(draw):
    k = draw(st.sampled_from(["normal", "normal", "exponential", "poisson", "lognormal", "bernoulli", "uniform", "ols", "ols", "wls"]))
    n = draw(st.integers(4, 9))
    c = {"k": k, "names": draw(st.booleans())}
    if k in ("ols", "wls"):
        p = draw(st.integers(1, 2))
        X = [[draw(FREE(-5, 5)) for _ in range(p)] for _ in range(n + 2)]
        y = [draw(FREE(-9, 9)) for _ in X]
        c["raw"] = draw(st.booleans())
        c["d"] = {"m": [[a] + b for a, b in zip(y, X)]} if c["raw"] else {"v": y, "m": X}
        c["boot"] = draw(st.integers(0, 9))
        if k == "wls":
            c["d"]["w"] = [draw(FREE(.5, 3)) for _ in X]
    else:
        el = {"normal": FREE(-9, 9), "exponential": FREE(.1, 9), "poisson": st.integers(0, 9).map(float), "lognormal": FREE(.1, 9), "bernoulli": st.sampled_from([0., 1.]), "uniform": FREE(-9, 9)}[k]
        x = draw(st.lists(el, min_size=n, max_size=n).filter(lambda x: len(set(x)) > 2 or k == "bernoulli"))
        c["d"] = {draw(st.sampled_from("vm")): x}
        if "m" in c["d"]:
            c["d"]["m"] = [[v] for v in x]
    return c


def uniform_rows(seed, n, it):
    """the rows that a model which only looks is handed with this seed"""
    log = []
    mod, size = estimator((1, 0, 0), 0, 0, (0, 0, 0), lambda i: None, log)
    L.pppiicp_sh_boot(mk({"v": [float(i) for i in range(n)]}), mod, seed, it, "", None)
    return [[int(r[0][0]) for r in l[0]] for l in log]


def run_lib(c):
    k, dd = c["k"], dict(c["d"])
    if k in ("ols", "wls"):
        X = np.array(dd["m"])
        y = X[:, 0].copy() if c["raw"] else np.array(dd["v"])
        if c["raw"]:
            X[:, 0] = 1
        w = np.array(dd.get("w") or [1.0] * len(y))
        n = len(y)

        def f(ix):
            A = X[ix] * np.sqrt(w[ix])[:, None]
            if np.linalg.cond(A) > 1e4:
                return None
            return np.linalg.lstsq(A, y[ix] * np.sqrt(w[ix]), rcond=None)[0]
    else:
        x = dd.get("v") or [r[0] for r in dd["m"]]
        n = len(x)
        f = lambda ix: np.array(closed_ref(k, [x[i] for i in ix])[0])
    if c["names"]:
        dd["rn"] = ["r%i" % i for i in range(n)]
        if "m" in dd:
            dd["cn"] = ["c%i" % i for i in range(len(dd["m"][0]))]
    reps = [f([j for j in range(n) if j != i]) for i in range(n)]
    if any(r is None for r in reps):
        return ["degenerate"]
    name = MODELS[k].c if k in MODELS else "apop_ols"
    d = mk(dd)
    before = dump(d)
    out = dump(L.ppp_sh_jack(d, var(name)))
    eq(dump(d), before, "the data after the jackknife")
    reps = np.array(reps)
    m = out["m"]
    want = cov(reps) * (n - 1) ** 2 / n
    check(len(m) == len(want), "covariance of %s parameters, expected %s", len(m), len(want))
    cmpcov(m, want, 1e3 * (1 + (np.abs(reps).max(axis=0) * n) ** 2), "the jackknife covariance of %s" % k)
    if k in ("ols", "wls"):
        # each replicate solves the normal equations of some multiset of the rows
        store = (C.c_void_p * 1)()
        L.pppiicp_sh_boot(d, var(name), c["boot"], 3, "", C.addressof(store))
        eq(dump(d), before, "the data after the bootstrap")
        rows = uniform_rows(c["boot"], n, 3)
        for ix, b in zip(rows, dump(store[0])["m"]):
            q = f(list(ix))
            if q is not None:
                near(b, q.tolist(), "the replicate with rows %s" % (ix,), 1e-6, 1e-6)
    return ["nt", k]


# ------------------------------------------------------------ distribution of the parameters
@st.composite
def pm_c(draw):
    return {"d": draw(st.one_of(dataset(3, 7), dataset(3, 7), st.none())), "shape": draw(SHAPES), "index": draw(st.integers(-1, 7)), "draws": draw(st.integers(5, 30)), "seed": draw(st.integers(0, 99))}


def run_pm(c):
    log = []
    mod, size = estimator(c["shape"], 0, 0, (0, 0, 0), lambda i: None, log)
    index = c["index"] if c["index"] < 0 else c["index"] % size
    d = mk(c["d"]) if c["d"] else None
    est = L.ppp_apop_estimate(d, mod)
    hat = log[0][1]
    if d and cov([stat([r], size) for r in log[0][0]]).trace() == 0:
        return ["constant"]
    log.clear()
    out = L.pppiiii_sh_parmodel(d, est, index, c["draws"], c["seed"], 1)
    check(len(log) == c["draws"], "%s estimates for %s draws", len(log), c["draws"])
    reps = [l[1] for l in log]
    if d:
        V = cov(reps)
        p = dump(L.pp_sh_params(out))
        nm = L.sp_sh_mname(out)
        if index < 0:
            check("ultivariate" in nm, "got %s, expected a multivariate Normal", nm)
            near(p["v"], hat, "the mean of the parameters")
            cmpcov(p["m"], V, 1 + np.abs(reps).max(axis=0) ** 2, "the covariance of the parameters")
            eq(L.ip_sh_dsize(out), size, "the size of a draw")
        else:
            near(p["v"][0], hat[index], "the mean of the parameter")
            sd = math.sqrt(max(V[index][index], 0))
            near(p["v"][1], sd, "the standard deviation of the parameter", 1e-6, 1e-6 * (1 + max(abs(r[index]) for r in reps)))
    else:
        dd = dump(L.pp_sh_mdata(out))
        if index < 0:
            eq(dd["m"], reps, "the draws of the parameters")
        else:
            eq(dd["v"], [r[index] for r in reps], "the draws of the parameter")
    return ["nt" if size > 1 else "one", "data" if d else "simulation", "all" if index < 0 else "one parameter"]


# ------------------------------------------------------------ imputation
@st.composite
def imp_c(draw):
    k = draw(st.integers(1, 4) if draw(st.integers(0, 4)) == 0 else st.integers(2, 4))
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["mvn", "mvn", "mvn", "null", "normal"]))
    if kind == "null":
        n = k + 4 + draw(st.integers(0, 3))
    x = [[draw(FREE(-3, 3)) for _ in range(k)] for _ in range(n)]
    A = [[draw(FREE(-1, 1)) for _ in range(k)] for _ in range(k)]
    mu = [draw(FREE(-4, 4)) for _ in range(k)]
    holes = [[i, j] for i in range(n) for j in range(k)]
    nh = draw(st.integers(1 if draw(st.integers(0, 9)) else 0, min(len(holes), 6 if kind == "null" else 8)))
    at = draw(st.permutations(holes))[:nh]
    if kind == "null":
        at = [h for h in at if h[0] < 3]
    return {"kind": kind, "x": x, "A": A, "mu": mu, "at": at, "w": draw(st.booleans()), "t": draw(st.booleans()), "names": draw(st.booleans()), "vec": draw(st.booleans()), "via": draw(st.sampled_from(["impute", "impute", "predict", "predict null"]))}


def run_imp(c):
    x = np.array(c["x"])
    via = c["via"] if c["kind"] == "mvn" else "impute"
    if via == "predict null":    # no data: everything is to be predicted
        x = x[:1]
        c = dict(c, at=[[0, j] for j in range(x.shape[1])], w=False, t=False, names=False)
    n, k = x.shape
    A = np.array(c["A"])
    S = A @ A.T + .3 * np.eye(k)
    mu = np.array(c["mu"])
    at = [tuple(h) for h in c["at"]]
    hole = x.copy()
    for i, j in at:
        hole[i, j] = np.nan
    dd = {"m": hole.tolist()}
    if c["w"]:
        dd["w"] = [1.0 + i for i in range(n)]
    if c["t"]:
        dd["t"] = [["text %i" % i] for i in range(n)]
    if c["names"]:
        dd["rn"] = ["r%i" % i for i in range(n)]
    kind = c["kind"]
    if kind == "normal":
        m = L.ppiP_sh_set_params(var("apop_normal"), 2, [float(mu[0]), float(S[0][0])])
        mu, S = np.full(k, mu[0]), np.eye(k) * S[0][0] ** 2
        if c["vec"]:
            v = list(hole[:, 0])
            dd = {"v": v, **{a: b for a, b in dd.items() if a != "m"}}
            at = [(i, -1) for i, j in at if j == 0]
    elif kind == "mvn":
        m = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), k, k, k, k, 0, mu.tolist(), S.ravel().tolist())
    else:
        m = None
        keep = [i for i in range(n) if not np.isnan(hole[i]).any()]
        fit = dump(L.pp_sh_params(L.ppp_apop_estimate(mk({"m": x[keep].tolist(), **({"w": [dd["w"][i] for i in keep]} if c["w"] else {})}), var("apop_multivariate_normal"))))
        mu, S = np.array(fit["v"]), np.array(fit["m"])
        if np.linalg.eigvalsh(S).min() < .15:
            return ["degenerate"]
    d = mk(dd)
    before = dump(d)
    mb = dump(L.pp_sh_params(m)) if m else None
    if via == "predict null":
        after = dump(L.ppp_apop_predict(None, m))
        eq([after[a] is None for a in "vm"], [True, False], "the form of the prediction")
    elif via == "predict":
        check(L.ppp_apop_predict(d, m) == d, "the data set given is not what is returned")
        after = dump(d)
    else:
        r = L.ppp_sh_impute(d, m)
        check(r, "no model returned")
        after = dump(d)
    if m:
        eq(dump(L.pp_sh_params(m)), mb, "the parameters of the model given")
    eq({a: b for a, b in after.items() if a not in "vm"}, {a: b for a, b in before.items() if a not in "vm"}, "the rest of the data set")
    filled = {}
    for part in "vm":
        if before[part] is None:
            continue
        for i, row in enumerate(before[part]):
            row2 = after[part][i]
            for j, v in enumerate(row if part == "m" else [row]):
                g = row2[j] if part == "m" else row2
                if math.isnan(v):
                    filled[(i, j)] = g
                else:
                    eq(g, v, "a cell that was not missing, at %i, %i" % (i, j))
    check(all(math.isfinite(g) for g in filled.values()), "cells not filled in: %s", filled)
    worst = 0
    for i in range(n):
        miss = [j for j in range(k) if (i, j) in filled]
        if not miss:
            continue
        have = [j for j in range(k) if j not in miss] if kind != "normal" else []
        Soo, Smo = S[np.ix_(have, have)], S[np.ix_(miss, have)]
        cond = mu[miss] + (Smo @ np.linalg.solve(Soo, hole[i, have] - mu[have]) if have else 0)
        Scond = S[np.ix_(miss, miss)] - (Smo @ np.linalg.solve(Soo, Smo.T) if have else 0)
        got = np.array([filled[(i, j)] for j in miss])
        grad = np.linalg.solve(Scond, got - cond)
        worst = max(worst, float(np.abs(grad).max()))
        check(np.abs(grad).max() < .3, "row %s filled in with %s, the most likely values being %s (gradient %s)", i, got.tolist(), cond.tolist(), grad.tolist())
    part_ = any(0 < sum((i, j) in filled for j in range(k)) < k for i in range(n))
    return ["nt" if part_ and kind != "normal" else "simple", kind, "holes" if filled else "no holes", via]


# ------------------------------------------------------------ wrong input
def run_bad(c):
    if c == "jack null":
        eq(dump(L.ppp_sh_jack(None, var("apop_normal")))["err"], "n", "jackknife of no data")
    elif c == "jack one":
        d = mk({"v": [3.0]})
        o = dump(L.ppp_sh_jack(d, var("apop_normal")))
        check(o["err"] not in ("", "\0", None), "the jackknife of one observation: %s", o)
    elif c == "impute all":
        d = mk({"m": [[math.nan, 1.0], [2.0, math.nan]]})
        check(L.ppp_sh_impute(d, None) in (None, 0), "a model fit to no whole rows")
        eq(dump(d)["m"], [[math.nan, 1.0], [2.0, math.nan]], "the data")
    return ["nt"]


# ------------------------------------------------------------ threads
@st.composite
def th_c(draw):
    n = draw(st.integers(2, 8))
    return {"x": [draw(FREE(-9, 9)) for _ in range(n)], "w": draw(st.booleans()), "n": draw(st.integers(2, 9)), "it": draw(st.integers(2, 12)), "threads": draw(st.integers(2, 4))}


def run_th(c):
    dd = {"m": [[v] for v in c["x"]], "rn": ["row %i" % i for i in range(len(c["x"]))], "cn": ["x"], "title": "t"}
    if c["w"]:
        dd["w"] = [1.0 + i for i in range(len(c["x"]))]
    d = mk(dd)
    before = dump(d)
    one = dump(L.ppiii_sh_boot_threads(d, c["n"], c["it"], 1))["m"]
    many = dump(L.ppiii_sh_boot_threads(d, c["n"], c["it"], c["threads"]))["m"]
    eq(dump(d), before, "the data")
    eq(many, one, "results from several threads")
    return ["nt" if c["n"] > 2 else "few"]


FACETS = [
    Facet("jackknife", lambda t: jack_c(), run_jack, quick=500),
    Facet("bootstrap", lambda t: boot_c(), run_boot, quick=900),
    Facet("uniform", lambda t: uni_c(), run_uni, quick=24),
    Facet("library", lambda t: lib_c(), run_lib, quick=300),
    Facet("parmodel", lambda t: pm_c(), run_pm, quick=200),
    Facet("impute", lambda t: imp_c(), run_imp, quick=300),
    Facet("wrong", lambda t: st.sampled_from(["jack null", "jack one", "impute all"]), run_bad, quick=6),
    Facet("threads", lambda t: th_c(), run_th, quick=40, threads=True),
]
