"""Scores, numerical derivatives, and the linear-constraint check."""
import ctypes as C
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats
from engine import Facet, Bad
from ap import *
import models as MD
from models import MODELS
import props.C20 as C20
from props.C26 import pages_data, packed, R3

RULE = ("score: every model with an analytic score, and some without, data in vectors and matrices, interior parameters, against differences of the reference likelihood. numeric: polynomials over 1 to 7 parameters in vectors, matrices and pages, with and without data, scores, constraints and settings. hessian: the same, and the covariance. constraint: histories of checks of different sizes and sets of constraints, against enumeration of the active sets. models: the parameters every distribution admits, inside and outside. threads. "
        "Non-trivial: at least two parameters or two observations; at least one check in the history that fails. Distinct by the whole case.")
ASSUMPTIONS = ["differences agree to 1e-4 relative", "constraint sets are feasible; three or more constraints, or a margin with more than one, only with perpendicular borders, as documented heuristics apply elsewhere"]

FREE = lambda a, b: st.floats(a, b).map(R3)


# ------------------------------------------------------------ models with scores
SCORED = ["normal", "normal", "exponential", "gamma", "beta", "poisson", "yule", "lognormal", "t", "zipf"]


@st.composite
def score_c(draw):
    n = draw(st.sampled_from(SCORED + ["dirichlet", "dirichlet"]))
    c = {"n": n, "how": draw(st.sampled_from("vVmMbb")), "cols": draw(st.integers(1, 3))}
    if n == "dirichlet":
        k = draw(st.integers(2, 4))
        c["p"] = [draw(FREE(.3, 6)) for _ in range(k)]
        rows = []
        for _ in range(draw(st.integers(1, 5))):
            g = [draw(FREE(.05, 1)) for _ in range(k)]
            rows.append([x / sum(g) for x in g])
        c["x"] = rows
    else:
        M = MODELS[n]
        p = draw(M.params)
        p = [min(x, 40.0) if i or n in ("exponential", "poisson", "gamma", "beta") else x for i, x in enumerate(p)]
        c["p"] = p
        c["x"] = draw(st.lists(M.point(p), min_size=1, max_size=6))
    return c


def step(p, i, n):
    h = 1e-3 * max(abs(p[i]), .05)
    return min(h, 1e-2 * p[1]) if i == 0 and n in ("normal", "lognormal", "t") else h


def grad(f, p, n):
    out = []
    for i in range(len(p)):
        h = step(p, i, n)
        g = lambda s: f([x + s * h if j == i else x for j, x in enumerate(p)])
        # sixth-order central differences
        v = [g(s) for s in (-3, -2, -1, 1, 2, 3)]
        if not all(math.isfinite(x) for x in v):
            return None, None
        out.append((-v[0] + 9 * v[1] - 45 * v[2] + 45 * v[3] - 9 * v[4] + v[5]) / (60 * h))
    return out, max(abs(x) for x in v)


def run_score(c):
    n, p = c["n"], list(c["p"])
    if n == "dirichlet":
        k = len(p)
        x = np.array(c["x"])
        d = mk({"m": x.tolist()})
        m = L.ppiiiiiPP_sh_model(var("apop_dirichlet"), k, 0, 0, k, 0, p, [])
        f = lambda q: float(len(x) * (special.gammaln(sum(q)) - sum(special.gammaln(a) for a in q)) + sum((a - 1) * math.log(v) for r in x for a, v in zip(q, r)))
    else:
        M = MODELS[n]
        d = C20.layout(c["x"], c["how"], c["cols"])
        m = L.ppiiiiiPP_sh_model(var(M.c), -1, -1, -1, 1, 0, p, [])
        f = lambda q: sum(M.ll(x, q) for x in c["x"])
    want, top = grad(f, p, n)
    if want is None:
        return ["edge"]
    bd, bp = dump(d), dump(L.pp_sh_params(m))
    got = dump(L.ppp_sh_score(d, m))["v"]
    eq(dump(d), bd, "the data after the score")
    eq(dump(L.pp_sh_params(m)), bp, "the parameters after the score")
    check(len(got) == len(p), "a score of %s elements for %s parameters", len(got), len(p))
    for i, (a, b) in enumerate(zip(got, want)):
        h = step(p, i, n)
        tol = 1e-4 * (1 + abs(b)) + 1e-11 * top / h + 1e-4 * top * 1e-3
        check(abs(a - b) <= tol, "derivative %s of %s at %s, data %s: got %s, expected %s", i, n, p, c["x"], a, b)
    return ["nt" if len(p) > 1 or len(c["x"]) > 1 else "one", n]


# ------------------------------------------------------------ numerical derivatives of polynomials
@st.composite
def poly_c(draw, pages=True, small=False):
    shape = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3])) if pages else 1):
        s = (draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(1, 2)))
        if small:
            s = (draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.integers(1, 2)))
        shape.append(s if s[0] or s[1] else (1, 0, 1))
    n = sum(a + b * d for a, b, d in shape)
    p = [draw(FREE(-2, 2)) for _ in range(n)]
    terms = draw(st.integers(1, 6))
    expo = []
    for _ in range(terms):
        e = [0] * n
        for _ in range(draw(st.integers(1, 3))):
            e[draw(st.integers(0, n - 1))] += 1
        expo.append(e)
    con = draw(st.integers(0, 3)) == 0
    if con:
        p = [abs(x) + .3 for x in p]
    return {"shape": shape, "p": p, "coef": [draw(FREE(-3, 3)) for _ in range(terms)], "expo": expo, "kind": draw(st.sampled_from("lllsp")), "con": con, "data": draw(st.one_of(st.none(), FREE(.5, 3))),
            "vec": draw(st.booleans()), "delta": draw(st.sampled_from([0, 0, 1e-3, 1e-2])), "own": draw(st.sampled_from([0, 0, 5e-3])), "names": draw(st.booleans())}


def poly(c, p, diff=()):
    tot = 0.0
    for a, e in zip(c["coef"], c["expo"]):
        e = list(e)
        v = a
        for i in diff:
            v *= e[i]
            e[i] -= 1
            if v == 0:
                break
        if v:
            tot += v * math.prod(x ** k for x, k in zip(p, e))
    return tot * (c["data"] if c["data"] is not None else 1)


def make(c):
    n = len(c["p"])
    pd = pages_data(c["shape"], c["p"])
    if c["names"] and c["shape"][0][0]:
        pd["rn"] = ["p%i" % i for i in range(max(c["shape"][0][0], c["shape"][0][1]))]
    d = None if c["data"] is None else mk({"v" if c["vec"] else "m": [c["data"], 9.0] if c["vec"] else [[c["data"], 9.0]]})
    return d, L.pcpiiPIid_sh_poly(c["kind"], mk(pd), n, len(c["coef"]), c["coef"], [x for e in c["expo"] for x in e], int(c["con"]), c["own"])


def run_numeric(c):
    d, m = make(c)
    n = len(c["p"])
    bd, bp = dump(d, 1) if d else None, dump(L.pp_sh_params(m), 1)
    want = [poly(c, c["p"], (i,)) for i in range(n)]
    got = dump(L.pppd_sh_num_grad(d, m, c["delta"]))["v"]
    check(len(got) == n, "a gradient of %s elements for %s parameters", len(got), n)
    near(got, want, "the numerical gradient", 1e-5, 1e-5)
    if d:
        eq(dump(d, 1), bd, "the data")
    after = dump(L.pp_sh_params(m), 1)
    eq(after, bp, "the parameters after the gradient")
    if c["kind"] != "p" or True:
        got = dump(L.ppp_sh_score(d, m))["v"]
        near(got, want, "the score", 1e-5, 1e-5)
        eq(dump(L.pp_sh_params(m), 1), bp, "the parameters after the score")
    return ["nt" if n > 1 else "one", "pages" if len(c["shape"]) > 1 else "page", c["kind"]]


def run_hess(c):
    d, m = make(c)
    n = len(c["p"])
    bp = dump(L.pp_sh_params(m), 1)
    H = np.array([[poly(c, c["p"], (i, j)) for j in range(n)] for i in range(n)])
    got = dump(L.pppd_sh_hessian(d, m, c["delta"]))
    check(got["m"] is not None and len(got["m"]) == n and len(got["m"][0]) == n, "a Hessian of the wrong size for %s parameters: %s", n, got["m"])
    check(np.abs(np.array(got["m"]) - H).max() < 1e-3 * (1 + np.abs(H).max()), "the Hessian: got %s, expected %s", got["m"], H.tolist())
    check(np.array_equal(np.array(got["m"]), np.array(got["m"]).T), "the Hessian is not symmetric: %s", got["m"])
    eq(dump(L.pp_sh_params(m), 1), bp, "the parameters after the Hessian")
    if np.linalg.cond(H) < 1e3 and np.abs(H).min() > -1:
        V = -np.linalg.inv(H)
        out = dump(L.pppd_sh_numcov(d, m, c["delta"]))
        check(np.abs(np.array(out["m"]) - V).max() < 1e-2 * (np.abs(V).max()), "the covariance: got %s, expected %s", out["m"], V.tolist())
        p = dump(L.pp_sh_params(m), 1)
        pg = p
        while pg and pg["n"]["title"] != "<Covariance>":
            pg = pg["more"]
        check(pg is not None and same(pg["m"], out["m"]), "the covariance page is %s", pg)
        q = dict(p)
        eq(p["v"], bp["v"], "the parameters after the covariance")
        eq(p["m"], bp["m"], "the parameters after the covariance")
        return ["nt", "covariance"]
    return ["nt" if n > 1 else "one"]


# ------------------------------------------------------------ the nearest point that meets linear constraints
@st.composite
def con_c(draw, n=None):
    n = n or draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["default", "default", "one", "one", "two", "two", "two", "perp", "perp", "strip"]))
    if n == 1 and kind == "two":
        kind = "strip"
    b = [draw(st.one_of(st.integers(-5, 5).map(float), FREE(-9, 9))) for _ in range(n)]
    margin = draw(st.sampled_from([0, 0, 0, 1e-3, .5]))
    rows, k = [], []
    vec = lambda: [draw(st.one_of(st.integers(-3, 3).map(float), FREE(-3, 3))) for _ in range(n)]
    if kind == "one":
        rows = [vec()]
    elif kind == "two":
        rows = [vec(), vec()]
        margin = 0
    elif kind == "strip":
        v = vec()
        s = draw(st.sampled_from([1.0, 2.0]))
        rows = [v, [-s * x for x in v]]
    elif kind == "perp":
        q = np.linalg.qr(np.array([[draw(FREE(-3, 3)) for _ in range(n)] for _ in range(n)]) + 4 * np.eye(n))[0] if draw(st.booleans()) else np.eye(n)[draw(st.permutations(range(n)))]
        rows = [(x * draw(st.sampled_from([1.0, -1.0, 2.5, -.5]))).tolist() for x in q[:draw(st.integers(1, n))]]
    if any(sum(x * x for x in r) < .05 for r in rows):
        rows = [[1.0 if i == j % n else 0.0 for i in range(n)] for j in range(len(rows))]
        if kind == "strip":
            rows[1] = [-x for x in rows[0]]
    k = [draw(st.one_of(st.integers(-4, 4).map(float), FREE(-6, 6))) for _ in rows]
    if kind == "strip":
        width = draw(FREE(1.5, 6))
        ratio = math.sqrt(sum(x * x for x in rows[1]) / sum(x * x for x in rows[0]))
        k[1] = -(k[0] + width * math.sqrt(sum(x * x for x in rows[0]))) * ratio
        margin = min(margin, .5)
    return {"kind": kind, "b": b, "rows": rows, "k": k, "margin": margin, "give": draw(st.booleans()), "stride": draw(st.sampled_from([1, 1, 2, 3])), "repeat": draw(st.booleans())}


def project(b, A, k):
    """the nearest point with A x >= k, by enumerating active sets"""
    b, A, k = np.array(b, float), np.array(A, float), np.array(k, float)
    best = None
    n = len(b)
    for r in range(0, min(len(A), n) + 1):
        for S in itertools.combinations(range(len(A)), r):
            S = list(S)
            if S:
                G = A[S] @ A[S].T
                if np.linalg.cond(G) > 1e10:
                    continue
                x = b + A[S].T @ np.linalg.solve(G, k[S] - A[S] @ b)
            else:
                x = b
            if (A @ x >= k - 1e-8 * (1 + np.abs(k) + np.abs(A) @ np.abs(x))).all():
                dist = float(np.linalg.norm(x - b))
                if best is None or dist < best[0] - 1e-12:
                    best = (dist, x)
    return best


def expect(c):
    n = len(c["b"])
    A = np.array(c["rows"]) if c["rows"] else np.eye(n)
    k = np.array(c["k"]) if c["rows"] else np.zeros(n)
    u = np.linalg.norm(A, axis=1)
    slack = A @ np.array(c["b"]) - k - c["margin"] * u
    edge = np.abs(slack).min() < 1e-9 * (1 + np.abs(k).max() + np.abs(A).max() * 9)
    if len(A) == 2:
        cosang = abs(float(A[0] @ A[1])) / (u[0] * u[1])
        if 1e-9 < 1 - cosang < 1e-3:
            return None
        if c["kind"] == "two" and 1 - cosang < 1e-9:
            t = float(A[0] @ A[1])
            if t < 0 and k[0] / u[0] > -k[1] / u[1] - 1e-6:
                return None    # nothing satisfies both
    return A, k + c["margin"] * u, (slack >= 0).all(), edge, u


def run_con(cs):
    labs = set()
    fail = 0
    for c in cs:
        e = expect(c)
        if e is None:
            continue
        A, kk, ok, edge, u = e
        con = mk({"v": c["k"], "m": c["rows"]}) if c["rows"] else None
        bc = dump(con) if con else None
        b = (C.c_double * len(c["b"]))(*c["b"])
        give = int(c["give"] or c["margin"] > 0)
        pen = L.dipipdi_sh_lincon(len(b), C.addressof(b), c["stride"], con, c["margin"], give)
        check(pen != -99, "elements that are not part of the vector were changed")
        if con:
            eq(dump(con), bc, "the constraints")
        x = list(b)
        if edge:
            continue
        if ok:
            eq(pen, 0.0, "the penalty when all constraints hold")
            eq(x, c["b"], "the point when all constraints hold")
            labs.add("holds")
            continue
        fail += 1
        best = project(c["b"], A, kk)
        if best is None:
            continue
        dist, want = best
        sc = 1 + np.abs(want).max() + dist
        near(pen, dist, "the penalty at %s with %s, margin %s" % (c["b"], [c["k"], c["rows"]], c["margin"]), 1e-6, 1e-7 * sc)
        near(x, want.tolist(), "the nearest point to %s with %s, margin %s" % (c["b"], [c["k"], c["rows"]], c["margin"]), 1e-5, 1e-6 * sc)
        labs.add(c["kind"])
        if c["repeat"]:
            b2 = (C.c_double * len(x))(*x)
            again = L.dipipdi_sh_lincon(len(x), C.addressof(b2), 1, con, c["margin"], give)
            check(again <= 1e-7 * sc, "checking the corrected point again gives a penalty of %s", again)
    return (["nt"] if fail else ["all hold"]) + sorted(labs)


# ------------------------------------------------------------ threads
@st.composite
def th_c(draw):
    return {"cons": [draw(con_c()) for _ in range(draw(st.integers(3, 8)))], "polys": [draw(poly_c(False, True)) for _ in range(draw(st.integers(2, 6)))], "threads": draw(st.integers(2, 4))}


def run_th(c):
    cs = c["cons"]
    n, wide = len(cs), 5
    cons = [mk({"v": q["k"], "m": q["rows"]}) if q["rows"] else None for q in cs]

    def go(threads):
        b = (C.c_double * (n * wide))()
        for i, q in enumerate(cs):
            for j, x in enumerate(q["b"]):
                b[i * wide + j] = x
        out = (C.c_double * n)()
        cp = (C.c_void_p * n)(*cons)
        L.viIpipPpi_sh_lincon_threads(n, [len(q["b"]) for q in cs], C.addressof(b), wide, C.addressof(cp), [q["margin"] for q in cs], C.addressof(out), threads)
        return list(out), list(b)
    one = go(1)
    eq(go(c["threads"]), one, "constraints checked in several threads")
    by = {}
    for q in c["polys"]:
        by.setdefault(len(q["p"]), []).append(q)
    for k, qs in by.items():
        qs = [dict(q, data=None, con=False) for q in qs * 3]
        ms = [make(q)[1] for q in qs]
        arr = (C.c_void_p * len(ms))(*ms)
        a = dump(L.pipii_sh_grad_threads(len(ms), C.addressof(arr), k, 1))["m"]
        b = dump(L.pipii_sh_grad_threads(len(ms), C.addressof(arr), k, c["threads"]))["m"]
        eq(b, a, "derivatives from several threads")
    return ["nt"]


# ------------------------------------------------------------ which parameters each distribution admits
# name: (parameters, coefficients and bound of each half space they must lie in); margins are at most MARGIN
MARGIN = 1.01e-3
HALVES = {
    "normal": (2, [([0, 1], 0)]), "lognormal": (2, [([0, 1], 0)]), "exponential": (1, [([1], 0)]), "poisson": (1, [([1], 0)]), "gamma": (2, [([1, 0], 0), ([0, 1], 0)]),
    "beta": (2, [([1, 0], 0), ([0, 1], 0)]), "yule": (1, [([1], 1)]), "zipf": (1, [([1], 1)]), "bernoulli": (1, [([1], 0), ([-1], -1)]), "t": (3, [([0, 1, 0], 0), ([0, 0, 1], .9)]),
}


def halves(n, k):
    if n == "dirichlet":
        return [([float(i == j) for i in range(k)], 0) for j in range(k)]
    if n in ("multinomial", "binomial"):
        return [([float(i == j) for i in range(k)], 0) for j in range(k)] + [([-float(i == j) for i in range(k)], -1) for j in range(1, k)]
    return HALVES[n][1]


@st.composite
def adm_c(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.sampled_from(list(HALVES) + ["dirichlet", "multinomial", "multinomial", "binomial"]))
        k = HALVES[n][0] if n in HALVES else 2 if n == "binomial" else draw(st.integers(2, 5))
        top = 1.5 if n in ("bernoulli", "multinomial", "binomial") else 4
        p = [draw(st.one_of(FREE(-top, top), FREE(.01, .9 if top == 1.5 else top))) for _ in range(k)]
        if n in ("multinomial", "binomial"):
            p[0] = draw(st.sampled_from([1.0, 7.0, 30.0, -2.0]))
        out.append([n, p])
    return out


def run_adm(c):
    nt = False
    for n, p in c:
        k = len(p)
        hs = halves(n, k)
        slack = [sum(a * b for a, b in zip(h, p)) - b for h, b in hs]
        if any(-1e-4 < s < MARGIN for s in slack):
            continue
        m = L.ppiiiiiPP_sh_model(var("apop_" + ("t_distribution" if n == "t" else n)), k, 0, 0, k, 0, p, [])
        b = dump(L.pp_sh_params(m))
        pen = L.dpp_sh_constraint(None, m)
        got = dump(L.pp_sh_params(m))
        what = "%s at %s" % (n, p)
        if all(s > 0 for s in slack):
            eq(pen, 0.0, "penalty of " + what)
            eq(got, b, "parameters after the check of " + what)
        else:
            q = got["v"]
            check(pen > 0, "penalty %s of %s", pen, what)
            left = [sum(a * t for a, t in zip(h, q)) - b for h, b in hs]
            # where more than two bounds are in force the point found is only somewhere near
            worst = min(left)
            if sum(s < MARGIN for s in slack) <= 1 or n in ("gamma", "beta", "t", "normal", "lognormal"):
                check(worst >= -1e-9, "%s moved to %s, which is out of bounds", what, q)
                near(q, onto(p, hs), "parameters of %s moved into bounds" % what, 0, 3 * MARGIN)
                near(pen, math.dist(p, onto(p, hs)), "penalty of " + what, 0, 3 * MARGIN)
            nt = True
        L.vp_sh_model_free(m)
    return ["nt"] if nt else []


def onto(p, hs):
    """onto bounds parallel to the axes"""
    q = list(p)
    for h, b in hs:
        i = next(i for i, a in enumerate(h) if a)
        q[i] = max(q[i], b) if h[i] > 0 else min(q[i], -b)
    return q


FACETS = [
    Facet("models", lambda t: adm_c(), run_adm, quick=1500),
    Facet("score", lambda t: score_c(), run_score, quick=700),
    Facet("numeric", lambda t: poly_c(), run_numeric, quick=500),
    Facet("hessian", lambda t: poly_c(small=True).filter(lambda c: len(c["p"]) < 6), run_hess, quick=300),
    Facet("constraint", lambda t: st.lists(con_c(), min_size=1, max_size=6), run_con, quick=900),
    Facet("threads", lambda t: th_c(), run_th, quick=60, threads=True),
]
