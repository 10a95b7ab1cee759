"""Local regression: fits, statistics, predictions and the life of the model against local least squares done row by row."""
import json, math
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *

RULE = ("direct: one to three predictors without ties, linear or quadratic, spans from .5 to 1.4, weights, both families, predictors conditionally parametric or without squares, normalised or not, the dependent variable in the vector or in column zero; fits, residuals, "
        "statistics, predictions and confidence limits are compared with a numpy implementation. interpolate: the k-d tree's vertices carry the local regressions' values and slopes, fits in one dimension are the cubic through them; the operator is recovered from fits of unit vectors, and all statistics and standard errors from it. "
        "Non-trivial: residuals that are not all zero and local regressions well conditioned. Distinct by the whole case.")
ASSUMPTIONS = ["neighbourhoods too small for the local polynomial, tied predictors that leave a neighbourhood without width, and local designs near singularity are not promised",
               "the approximate statistics are held to within a stated distance of the exact ones", "prediction with an interpolated surface outside the range of the data is not promised"]


# ------------------------------------------------------------ reference
class Ill(Exception):
    pass


def local(q, X, rw, nf, f, dd, deg, cdeg, slopes=False):
    """coefficients (as rows acting on y) of the local polynomial at q: value, and slopes if wanted"""
    n, D = X.shape
    d = ((X[:, :dd] - q[:dd]) ** 2).sum(1)
    o = np.argsort(d, kind="stable")[:nf]
    rho = d[o[-1]] * max(1.0, f)
    if rho <= 0:
        raise Ill
    w = np.sqrt(np.maximum(0, rw[o] * (1 - np.sqrt(d[o] / rho) ** 3) ** 3))
    Z = X[o] - q
    cols = [np.ones(nf)] + [Z[:, j] for j in range(D)]
    if deg >= 2:
        for j in range(D):
            if cdeg[j] >= 2:
                cols.append(Z[:, j] ** 2)
            cols += [Z[:, j] * Z[:, k] for k in range(j + 1, D)]
    if len(cols) > nf - 1:
        raise Ill
    B = np.array(cols).T * w[:, None]
    sc = np.sqrt((B ** 2).sum(0))
    if not (sc > 0).all():
        raise Ill
    s = np.linalg.svd(B / sc, compute_uv=False)
    if s[-1] < 1e-4 * s[0]:
        raise Ill
    A = np.linalg.pinv(B / sc, rcond=1e-13) / sc[:, None]
    out = np.zeros((D + 1 if slopes else 1, n))
    for i in range(len(out)):
        out[i, o] = A[i] * w
    return out if slopes else out[0]


class Fit:
    """the settings of a fit, with the predictors scaled and ordered"""
    def __init__(self, c, div=None):
        X = np.array(c["X"], float)
        self.n, self.D = X.shape
        self.w = np.array(c["w"] if c["w"] else [1.0] * self.n)
        self.deg, self.span = c["deg"], c["span"]
        self.div = np.ones(self.D)
        if c["norm"] and self.D > 1:
            cut = math.ceil(0.1 * self.n - 1e-9)
            for j in range(self.D):
                t = np.sort(X[:, j])[cut:self.n - cut]
                self.div[j] = math.sqrt(((t - t.mean()) ** 2).sum() / (len(t) - 1))
        self.nf = min(self.n, math.floor(self.n * self.span))
        par, drop = c["par"], c["drop"]
        non = [j for j in range(self.D) if not par[j]]
        self.order = non + [j for j in range(self.D - 1, -1, -1) if par[j]]
        self.dd = len(non)
        self.cdeg = [2 - drop[j] for j in self.order]
        self.X = self.scale(X)

    def scale(self, Z):
        return (np.array(Z, float).reshape(-1, self.D) / self.div)[:, self.order]

    def op(self, Z, rw=None, slopes=False):
        return np.array([local(z, self.X, self.w if rw is None else rw, self.nf, self.span, self.dd, self.deg, self.cdeg, slopes) for z in Z])


def median6(r):
    """six times the median absolute residual"""
    return 6 * float(np.median(np.abs(r)))


def bisquare(r, scale):
    m = median6(r)
    if m < 1e-6 * scale:
        raise Ill
    a = np.abs(r)
    if (np.abs(a / m - .999) < 1e-7).any():
        raise Ill
    return np.where(a > .999 * m, 0.0, np.where(a > .001 * m, (1 - (a / m) ** 2) ** 2, 1.0))


def traces(H):
    M = (np.eye(len(H)) - H) @ (np.eye(len(H)) - H).T
    return np.trace(H), np.trace(M), np.trace(M @ M)


def robust_fit(y, w, smooth, iters, scale):
    """fitted values, robustness weights, residual sum of squares"""
    n = len(y)
    rob = np.ones(n)
    for j in range(iters + 1):
        rob = w * rob
        fit = smooth(rob, y)
        if j < iters:
            rob = bisquare(y - fit, scale)
    if not iters:
        return fit, rob, float((w * (y - fit) ** 2).sum())
    r = y - fit
    mad = float(np.median(np.abs(r) * np.sqrt(w)))
    if mad < 1e-6 * scale:
        raise Ill
    t = (1 - r * r * w / ((6 * mad) ** 2 / 5)) * np.sqrt(rob)
    if abs(t.sum()) < 1e-3:
        raise Ill
    pseudo = fit + n / t.sum() * rob * r
    again = smooth(w, pseudo)
    return fit, rob, float((w * (pseudo - again) ** 2).sum())


# ------------------------------------------------------------ cases
@st.composite
def base(draw, dims, most, w=True):
    D = draw(st.sampled_from(dims))
    deg = draw(st.sampled_from([0, 1, 2, 2]))
    k = D + 1 if deg == 1 else (D + 1) * (D + 2) // 2
    n = draw(st.integers(max(k + 4, 7), max(most, k + 8)))
    X = list(map(list, zip(*[draw(st.lists(st.integers(-120, 120), min_size=n, max_size=n, unique=True)) for _ in range(D)])))
    y = draw(st.lists(st.integers(-60, 60), min_size=n, max_size=n))
    span = draw(st.sampled_from([0, .5, .6, .75, .9, 1, 1.4]))
    f = span or .75
    if math.floor(n * f) < k + 3:
        span = f = draw(st.sampled_from([1, 1.4]))
    norm = draw(st.sampled_from(["", "y", "n", "n"]))
    return {"X": [[a / 16 * (1, 1, 4)[j] for j, a in enumerate(r)] for r in X], "y": [a / 4 for a in y], "w": draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 2, .5, .25, 3]), min_size=n, max_size=n))) if w else None,
            "set": {"deg": deg, "span": span, "norm": norm}, "deg": deg or 2, "span": f, "norm": norm != "n", "par": [0] * D, "drop": [0] * D,
            "vec": draw(st.booleans()), "how": draw(st.sampled_from(["before", "before", "other data"])) }


def data_of(c, y=None):
    y = c["y"] if y is None else y
    d = {"m": c["X"], "v": y} if c["vec"] else {"m": [[b] + list(a) for a, b in zip(c["X"], y)]}
    if c["w"]:
        d["w"] = c["w"]
    if c.get("names"):
        d["cn"] = ["x%i" % i for i in range(len(c["X"][0]))] if c["vec"] else ["dep"] + ["x%i" % i for i in range(len(c["X"][0]))]
        if c["vec"]:
            d["vn"] = "dep"
    return mk(d)


def model_of(c, d, **k):
    s = c["set"]
    g = lambda x: ord(x) if x else 0
    return L.ppdddIIIissss_sh_loess(d, float(s["span"]), float(s.get("cell", 0)), float(s.get("level", 0)), [s["deg"], g(s["norm"]), s.get("iters", 0), g(s.get("ci", ""))],
                                    c["par"], c["drop"], len(c["par"]), s.get("family"), k.get("surface", s.get("surface")), k.get("stat", s.get("stat")), s.get("trace"))


def est(c, d, **k):
    """settings may be built on other data than those of the estimation, and the model with the settings may go at any time"""
    if c["how"] == "other data":
        o = data_of({**c, "X": c["X"][:4] + c["X"], "w": None, "vec": not c["vec"], "names": False}, (c["y"][:4] + c["y"])[::-1])
        m = model_of(c, o, **k)
        L.vp_sh_data_free(o)
    else:
        m = model_of(c, d, **k)
    e = L.ppp_apop_estimate(d, m)
    L.vp_sh_model_free(m)
    return e


def out(e):
    r = json.loads(L.sp_sh_loess_out(e))
    return {k: np.array(v) if isinstance(v, list) else v for k, v in r.items()}


def close(got, want, what, tol, scale):
    got, want = np.asarray(got, float), np.asarray(want, float)
    check(got.shape == want.shape, "%s: %s numbers, not %s", what, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol * (np.abs(want) + scale))
    if bad.any():
        raise Bad("%s: got %s, expected %s" % (what, short(got.tolist()), short(want.tolist())))


def page(d, title):
    while d and d["n"]["title"] != title:
        d = d["more"]
    return d


def check_pages(c, e, r):
    p = page(dump(L.pp_sh_info(e)), "<Predicted>")
    check(p is not None, "no <Predicted> page")
    eq(p["n"]["c"], ["dep" if c.get("names") else "Expected", "Predicted", "Residual"], "columns of the <Predicted> page")
    t = np.array(p["m"])
    eq(t[:, 0].tolist(), [float(x) for x in c["y"]], "the observed values")
    eq(t[:, 1].tolist(), r["fit"].tolist(), "the predicted values")
    eq(t[:, 2].tolist(), r["res"].tolist(), "the residuals")
    v = t[:, 2].var(ddof=1)
    if v > 1e-12:
        near(L.dpp_apop_log_likelihood(data_of(c), e), float(stats.norm.logpdf(t[:, 2], 0, math.sqrt(v)).sum()), "log likelihood", 1e-9, 1e-9)


def predict(c, e, Z, ci):
    n = len(Z)
    d = mk({"m": Z, "v": [9.0] * n} if c["vec"] else {"m": [[9.0] + list(z) for z in Z]})
    for _ in range(2):
        r = dump(L.ppp_apop_predict(d, e))
    eq(r["err"], "", "error of the prediction") if r["err"] else None
    fit = r["v"] if c["vec"] else [x[0] for x in r["m"]]
    eq([x if c["vec"] else x[1:] for x in r["m"]], [list(z) for z in Z], "the predictors after prediction")
    p = page(r, "<Confidence>")
    eq(p is not None, ci, "a <Confidence> page")
    if ci:
        eq(p["n"]["c"], ["standard error", "lower CI", "upper CI"], "columns of the <Confidence> page")
        eq(page(p["more"], "<Confidence>"), None, "a second <Confidence> page")
    return np.array(fit), np.array(p["m"]) if ci else None


# ------------------------------------------------------------ direct
@st.composite
def dir_c(draw, tier):
    c = draw(base([1, 1, 2, 2, 3], 40 if tier == "thorough" else 20))
    D = len(c["par"])
    if D > 1 and draw(st.booleans()):
        j = draw(st.integers(0, D - 1))
        c["par"][j] = 1
    if D > 1 and c["deg"] == 2 and draw(st.booleans()):
        j = draw(st.integers(0, D - 1))
        c["drop"][j] = 1
    s = c["set"]
    s["surface"] = "direct"
    s["stat"] = draw(st.sampled_from(["exact", "exact", None, "approximate"]))
    s["trace"] = draw(st.sampled_from([None, "exact", "approximate", "wait.to.decide"]))
    s["family"] = draw(st.sampled_from([None, "gaussian", "symmetric", "symmetric"]))
    s["iters"] = draw(st.sampled_from([0, 0, 1, 2, 5]))
    s["ci"] = draw(st.sampled_from(["", "y", "n"]))
    s["level"] = draw(st.sampled_from([0, .5, .9, .99]))
    c["names"] = draw(st.booleans())
    c["Z"] = [[draw(st.integers(-140, 140)) / 16 for _ in range(D)] for _ in range(draw(st.integers(1, 5)))]
    c["copy"] = draw(st.booleans())
    return c


def iters_of(s):
    return 0 if s.get("family") != "symmetric" else s["iters"] or 4


def statistics(r, H, rss, exact, n, what, even=True):
    tr, d1, d2 = traces(H)
    near(r["trace"], tr, what + "trace of the operator", 1e-7, 1e-7)
    if exact:
        near(r["d1"], d1, what + "delta 1", 1e-7, 1e-6)
        near(r["d2"], d2, what + "delta 2", 1e-7, 1e-6)
    elif n > 11 and even and n / tr > 2.5 and np.abs(H).max() < 1:
        check(abs(r["d1"] - d1) <= .15 * d1, what + "approximate delta 1 %s, exactly %s", r["d1"], d1)
        check(abs(r["d2"] - d2) <= .2 * d2, what + "approximate delta 2 %s, exactly %s", r["d2"], d2)
    near(r["enp"], r["d1"] + 2 * r["trace"] - n, what + "equivalent number of parameters", 1e-9, 1e-9)
    if r["d1"] > .1:
        near(r["s"], math.sqrt(rss / r["d1"]), what + "residual scale", 1e-6, 1e-7)


def limits(c, r, fit, ci, Lz, w, what):
    s = c["set"]
    with np.errstate(divide="ignore", invalid="ignore"):
        se = r["s"] * np.sqrt((np.where(Lz != 0, Lz ** 2 / w, 0)).sum(1))
    close(ci[:, 0], se, what + "standard errors", 1e-6, 1)
    df = r["d1"] ** 2 / r["d2"]
    if df > .9:
        t = stats.t.ppf(1 - (1 - (s["level"] or .95)) / 2, df)
        close(ci[:, 1], fit - t * se, what + "lower limits", 1e-5, 1)
        close(ci[:, 2], fit + t * se, what + "upper limits", 1e-5, 1)


def run_direct(c):
    s = c["set"]
    F = Fit(c)
    y = np.array(c["y"])
    scale = float(np.abs(y).max() + 1)
    try:
        H = F.op(F.X)
        fit, rob, rss = robust_fit(y, F.w, lambda rw, v: F.op(F.X, rw) @ v, iters_of(s), scale)
        Hz = F.op(F.scale(c["Z"]))
        Rz = F.op(F.scale(c["Z"]), rob) if iters_of(s) else Hz
    except Ill:
        return ["ill conditioned"]
    if np.abs(Hz).max() > 1e4 or np.abs(Rz).max() > 1e4:
        return ["far extrapolation"]
    d = data_of(c)
    keep = dump(d)
    e = est(c, d)
    eq(dump(d), keep, "the data after estimation")
    r = out(e)
    if c["copy"]:
        k = L.pp_sh_model_copy(e)
        L.vp_sh_model_free(e)
        e = k
        r2 = out(e)
        for q in r:
            eq(str(r2[q]), str(r[q]), "%s of a copy" % q)
    eq([r["degree"], r["span"], r["level"]], [c["deg"], c["span"], s["level"] or .95], "degree, span and level in use")
    eq([r["parametric"].tolist(), r["drop"].tolist()], [c["par"], c["drop"]], "conditionally parametric predictors and those without squares")
    close(r["divisor"], F.div, "divisors", 1e-9, 1)
    close(r["fit"], fit, "fitted values", 1e-7, scale)
    close(r["res"], y - fit, "residuals", 1e-7, scale)
    close(r["robust"], rob, "robustness weights", 1e-5, 1)
    exact = s["stat"] == "exact"
    if F.dd == F.D and not any(c["drop"]) or exact:
        statistics(r, H, rss, exact, F.n, "", not c["w"])
    check_pages(c, e, r)
    want = s["ci"] != "n"
    f, ci = predict(c, e, c["Z"], want)
    close(f, Rz @ y, "prediction", 1e-6, scale)
    if want and r["d1"] > .1 and r["s"] == r["s"]:
        limits(c, r, f, ci, Hz, F.w, "prediction: ")
    f, ci = predict(c, e, c["X"], want)
    close(f, r["fit"], "prediction at the data", 1e-9, scale)
    r3 = out(e)
    for q in r:
        eq(str(r3[q]), str(r[q]), "%s after predictions" % q)
    L.vp_sh_model_free(e)
    return [s["family"] or "default family", "D%i" % F.D, "parametric" if any(c["par"]) else "not parametric"] + (["nt"] if np.abs(y - fit).max() > 1e-6 else [])


# ------------------------------------------------------------ interpolation
@st.composite
def int_c(draw, tier):
    c = draw(base([1, 1, 1, 2, 2, 3], 30 if tier == "thorough" else 18))
    s = c["set"]
    D = len(c["par"])
    if D > 1 and draw(st.integers(0, 3)) == 0:
        c["par"][draw(st.integers(0, D - 1))] = 1
    s["cell"] = draw(st.sampled_from([0, .1, .2, .3, .5, 2]))
    s["stat"] = draw(st.sampled_from(["exact", "exact", None]))
    s["trace"] = draw(st.sampled_from([None, "exact"]))
    s["family"] = draw(st.sampled_from([None, None, "symmetric"]))
    s["iters"] = draw(st.sampled_from([0, 1]))
    s["ci"] = draw(st.sampled_from(["", "y", "n"]))
    s["level"] = 0
    c["u"] = [[draw(st.integers(0, 16)) / 16 for _ in range(D)] for _ in range(draw(st.integers(1, 4)))]
    c["perm"] = draw(st.permutations(range(len(c["y"]))))
    c["y2"] = draw(st.lists(st.integers(-9, 9), min_size=(D + 1) * (D + 2) // 2, max_size=(D + 1) * (D + 2) // 2))
    return c


def vertices(F, cell):
    lo, hi = F.X.min(0), F.X.max(0)
    mu = .005 * np.maximum(hi - lo, np.maximum(abs(lo), abs(hi)) * 1e-10 + 1e-30)
    fc = math.floor(F.n * F.span * cell)
    V, cells = set(), []
    todo = [(1, F.n, list(range(F.n)), lo - mu, hi + mu)]
    while todo:
        l, u, rows, lo, hi = todo.pop(0)
        for k in range(2 ** F.D):
            V.add(tuple(float((hi if k >> j & 1 else lo)[j]) for j in range(F.D)))
        if u - l + 1 <= fc:
            cells.append((lo, hi))
            continue
        P = F.X[rows]
        rng = (P.max(0) - P.min(0))[:F.dd]
        k = int(np.argmax(rng))
        if F.dd > 1 and np.sort(rng)[-1] - np.sort(rng)[-2] < 1e-9 * rng.max():
            raise Ill  # which dimension is cut depends on rounding
        rows = [rows[i] for i in np.argsort(P[:, k], kind="stable")]
        m = (l + u) // 2
        x = F.X[rows[m - l], k]
        if x == lo[k] or x == hi[k]:
            cells.append((lo, hi))
            continue
        a, b = hi.copy(), lo.copy()
        a[k] = b[k] = x
        todo.append((l, m, rows[:m - l + 1], lo, a))
        todo.append((m + 1, u, rows[m - l + 1:], b, hi))
    return sorted(V), cells


def hermite(h, w):
    """weights of the values at both ends of a segment of length w, and of the slopes there"""
    return (1 - h) ** 2 * (1 + 2 * h), h * h * (3 - 2 * h), w * h * (1 - h) ** 2, w * h * h * (h - 1)


def blend(x, cells, at):
    """the surface at x: in each cell the product of cubics through values and slopes at its corners; for two predictors blended
    with cubics along the edges, whose ends are the nearest vertices on either side of the edge"""
    D = len(x)
    first = np.min([c[0] for c in cells], 0)
    lo, hi = next(c for c in cells if all((a < t or a == f) and t <= b for a, t, b, f in zip(c[0], x, c[1], first)))  # the lower cell, on a cut
    g = [at[tuple(float((hi if k >> j & 1 else lo)[j]) for j in range(D))] for k in range(2 ** D)]
    for i in reversed(range(D)):
        p0, p1, q0, q1 = hermite((x[i] - lo[i]) / (hi[i] - lo[i]), hi[i] - lo[i])
        m = len(g) // 2
        g = [np.array([p0 * a[0] + p1 * b[0] + q0 * a[i + 1] + q1 * b[i + 1]] + [p0 * a[j] + p1 * b[j] for j in range(1, i + 1)]) for a, b in zip(g[:m], g[m:])]
    s = g[0][0]
    if D != 2:
        return s
    total = -s
    for i in (0, 1):  # along the edges on which predictor 1-i is fixed
        o = 1 - i
        pt = lambda u, v: at[(float(u), float(v)) if i == 0 else (float(v), float(u))]
        ends = []
        for edge, other in ((lo[o], 1), (hi[o], 0)):
            a, b = lo[i], hi[i]
            for c in cells:
                if c[other][o] == edge and c[0][i] <= x[i] <= c[1][i]:
                    a, b = max(a, c[0][i]), min(b, c[1][i])
                    break
            p0, p1, q0, q1 = hermite((x[i] - a) / (b - a), b - a)
            A, B = pt(a, edge), pt(b, edge)
            ends.append((p0 * A[0] + p1 * B[0] + q0 * A[i + 1] + q1 * B[i + 1], p0 * A[o + 1] + p1 * B[o + 1]))
        p0, p1, q0, q1 = hermite((x[o] - lo[o]) / (hi[o] - lo[o]), hi[o] - lo[o])
        total = total + p0 * ends[0][0] + p1 * ends[1][0] + q0 * ends[0][1] + q1 * ends[1][1]
    return total


def run_interp(c):
    s = c["set"]
    F = Fit(c)
    D, n = F.D, F.n
    y = np.array(c["y"])
    scale = float(np.abs(y).max() + 1)
    cell = F.span * (s["cell"] or .2)
    labels = ["D%i" % D]
    lo, hi = np.array(c["X"]).min(0), np.array(c["X"]).max(0)
    Z = [(lo + np.array(u) * (hi - lo)).tolist() for u in c["u"]]
    try:
        V, cells = vertices(F, s["cell"] or .2)
        HV = F.op(np.array(V), slopes=True)
        F.op(F.X)
    except Ill:
        return ["ill conditioned"]
    if len(V) > 190 or np.abs(HV).max() > 1e4:
        return ["too many vertices"]
    # the operator, from fits of unit vectors
    plain = {**c, "set": {**s, "family": None, "ci": "n"}, "how": "before"}
    back = [F.order.index(j) for j in range(D)]
    VZ = (np.array(V)[:, back] * F.div).tolist()
    H, HZ, HU = np.zeros((n, n)), np.zeros((len(Z), n)), np.zeros((len(V), n))
    for i in range(n):
        u = [0.0] * n
        u[i] = 1.0
        d = data_of(plain, u)
        e = est(plain, d)
        H[:, i] = out(e)["fit"]
        q, _ = predict(plain, e, Z + VZ, False)
        HZ[:, i], HU[:, i] = q[:len(Z)], q[len(Z):]
        L.vp_sh_model_free(e)
        L.vp_sh_data_free(d)
    # the vertices on an edge between cells of different size belong to the larger one too, which for three predictors knows nothing of them
    own = [k for k, v in enumerate(V) if D < 3 or all(all(t in (a, b) for a, t, b in zip(lo, v, hi)) for lo, hi in cells if all(a <= t <= b for a, t, b in zip(lo, v, hi)))]
    close(HU[own], HV[own, 0], "operator at the vertices %s" % short(V), 1e-6, 1)
    at = dict(zip(V, HV))
    for X, got, what in ((F.X, H, "operator at the data"), (F.scale(Z), HZ, "operator at %s" % Z)):
        close(got, [blend(x, cells, at) for x in X], what, 1e-6, 1)
    if not any(c["par"]):
        # polynomials of the local degree, without products of predictors, are reproduced
        ks = iter(c["y2"])
        poly = []
        a0, a1 = next(ks), [next(ks) for _ in range(D)]
        a2 = [[next(ks) for _ in range(D - j)] for j in range(D)] if c["deg"] == 2 else [[0] * (D - j) for j in range(D)]
        val = lambda Q: a0 + np.array(Q) @ a1 + sum(a2[j][k - j] * np.array(Q)[:, j] * np.array(Q)[:, k] / 8 for j in range(D) for k in range(j, j + 1))
        py, pz = val(c["X"]), val(Z)
        big = float(np.abs(py).max() + 1)
        close(H @ py, py, "fit of a polynomial of degree %i" % c["deg"], 1e-6, big)
        close(HZ @ py, pz, "prediction from a polynomial of degree %i" % c["deg"], 1e-6, big)
    # fit of the data
    d = data_of(c)
    e = est(c, d)
    r = out(e)
    it = iters_of(s)
    check_pages(c, e, r)
    if not it:
        close(r["fit"], H @ y, "fitted values", 1e-7, scale)
        rss = float((F.w * (y - H @ y) ** 2).sum())
        if s["stat"] == "exact" or not any(c["par"]):
            statistics(r, H, rss, s["stat"] == "exact", n, "", not c["w"] and s["cell"] <= .2)
        labels += ["nt"] if np.abs(y - H @ y).max() > 1e-6 else []
    want = s["ci"] != "n"
    f, ci = predict(c, e, Z, want)
    g, _ = predict(c, e, c["X"], want)
    close(g, r["fit"], "prediction at the data", 1e-8, scale)
    if not it:
        close(f, HZ @ y, "prediction", 1e-7, scale)
    if want and r["d1"] > .1 and r["s"] == r["s"]:
        limits(c, r, f, ci, HZ, F.w, "prediction: ")
    if it:
        # each pass is the fit with the last one's weights
        def smooth(rw, v):
            F.op(np.array(V), rw)
            c3 = {**plain, "w": list(map(float, rw))}
            d3 = data_of(c3, list(map(float, v)))
            e3 = est(c3, d3)
            g3 = out(e3)["fit"]
            L.vp_sh_model_free(e3)
            L.vp_sh_data_free(d3)
            return g3
        try:
            fit, rob, rss = robust_fit(y, F.w, smooth, it, scale)
            close(r["fit"], fit, "robust fit", 1e-6, scale)
            close(r["robust"], rob, "robustness weights", 1e-5, 1)
            if r["d1"] > .1:
                near(r["s"], math.sqrt(rss / r["d1"]), "residual scale of the robust fit", 1e-5, 1e-6)
            labels += ["nt"]
        except Ill:
            labels += ["degenerate robust fit"]
    # rows in another order
    q = list(c["perm"])
    c2 = {**c, "X": [c["X"][i] for i in q], "y": [c["y"][i] for i in q], "w": [c["w"][i] for i in q] if c["w"] else None}
    r2 = out(est(c2, data_of(c2)))
    if not it:
        close(r2["fit"], r["fit"][q], "fitted values with the rows in another order", 1e-7, scale)
    L.vp_sh_model_free(e)
    return labels


FACETS = [Facet("direct", lambda t: dir_c(t), run_direct, quick=1200), Facet("interpolate", lambda t: int_c(t), run_interp, quick=2000)]
