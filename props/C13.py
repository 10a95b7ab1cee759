"""Aggregates and maths functions added to the database."""
import ctypes, itertools, math
from fractions import Fraction as Fr
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Columns of up to 9 values per group in up to three groups, with NULLs (also whole groups of NULLs), constants, short groups, integers, large offsets and small spreads; every aggregate and alias, against exact rational "
        "arithmetic; every maths function over values inside and outside its domain, against the C library's; distributions of two to three points of which every sample is aggregated, for unbiasedness. "
        "Non-trivial: at least four non-NULL values in a group, or a function value other than NULL. Distinct by the whole case.")
ASSUMPTIONS = ["sample statistics of too few values for the statistic to exist are not promised", "text and infinities in aggregates are not promised", "SQLite stores the doubles given as bound-free literals with 17 digits"]
NAN = float("nan")
AGG = {"var": "v1", "var_samp": "v1", "stddev": "s1", "stddev_samp": "s1", "variance": "v0", "var_pop": "v0", "std": "s0", "stddev_pop": "s0", "skew": "k3", "kurt": "k4", "kurtosis": "k4"}

val = st.one_of(st.none(), st.integers(-20, 20), st.integers(-2000, 2000).map(lambda x: x / 8), st.sampled_from([0.1, 0.1, 0.7, 1e-3]))


def lit(x):
    return "NULL" if x is None else repr(x)


def moments(xs):
    """exact statistics of a list of numbers: dict of code -> float (None: not promised)"""
    n = len(xs)
    out = {}
    if not n:
        return {k: None for k in ("v1", "v0", "s1", "s0", "k3", "k4")}
    f = [Fr(x) for x in xs]
    mu = sum(f) / n
    m2, m3, m4 = (sum((x - mu) ** k for x in f) / n for k in (2, 3, 4))
    out["v0"] = float(m2)
    out["s0"] = math.sqrt(m2)
    if n > 1:
        out["v1"] = float(m2 * n / (n - 1))
        out["s1"] = math.sqrt(m2 * n / (n - 1))
    if n > 2:
        out["k3"] = float(m3 * n * n / ((n - 1) * (n - 2)))
    if n > 3:
        out["k4"] = float((n * (n * n - 2 * n + 3) * m4 - 3 * n * (2 * n - 3) * m2 * m2) / ((n - 1) * (n - 2) * (n - 3)))
    return out


@st.composite
def mom(draw):
    off = draw(st.sampled_from([0, 0, 0, 10, 1000, 2.0 ** 20, -(2.0 ** 26)]))
    sc = draw(st.sampled_from([1, 1, 1, 1 / 64, 1024]))
    gs = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.integers(0, 7))
        if kind == 0:
            g = [None] * draw(st.integers(1, 3))
        elif kind == 1:
            g = [draw(st.sampled_from([0.1, 3, -7.3, 1e-9, 1 / 3]))] * draw(st.integers(1, 9))
        else:
            g = draw(st.lists(val, min_size=1, max_size=9))
        gs.append([None if x is None else x * sc + off if kind != 1 else x for x in g])
    return {"g": gs, "type": draw(st.sampled_from(["", "real", "numeric"])), "order": draw(st.permutations(range(sum(map(len, gs)))))}


def close_to(got, want, scale, what):
    if want is None:
        return
    if got is None or abs(got - want) > 1e-9 * abs(want) + scale:
        raise Bad("%s: got %s, expected %r" % (what, short(got), want))


def run_mom(c):
    L.is_sh_query("create table t(g integer, x %s)" % c["type"])
    rows = [(i, x) for i, g in enumerate(c["g"]) for x in g]
    rows = [rows[i] for i in c["order"]]
    L.is_sh_query("insert into t values " + ", ".join("(%d, %s)" % (g, lit(x)) for g, x in rows))
    q = "select g, " + ", ".join("%s(x)" % a for a in AGG) + " from t group by g order by g"
    r = J(L.ss_sh_sql(q))
    eq(r["err"], None, "error of the query") if r["err"] else None
    eq(len(r["rows"]), len(c["g"]), "number of groups")
    big = 0
    for row, g in zip(r["rows"], c["g"]):
        xs = [x for x in g if x is not None]
        big = max(big, len(xs))
        w = moments(xs)
        spread = math.sqrt(w["v0"]) if xs else 0
        mag = max([abs(x) for x in xs] or [0])
        eps = mag * 1e-15 * 20
        for got, (a, code) in zip(row[1:], AGG.items()):
            what = "%s of %s" % (a, short(g))
            if not xs:
                eq(got, None, what)
                continue
            p = {"v": 2, "k": int(code[1])}.get(code[0], 1)
            tol = eps if p == 1 else p * 4 * eps * (spread + eps) ** (p - 1) * (4 if p > 2 else 1) * len(xs)
            if p == 1:
                tol = eps * 4
            if len(xs) > 0 and len(set(xs)) == 1 and len(xs) > int(code == "k3") * 2 + int(code == "k4") * 3:
                if len(xs) == 1 and code in ("v1", "s1"):
                    check(got in (None, 0), "%s got %s", what, got)
                else:
                    check(got is not None and abs(got) <= tol, "%s got %s, expected 0", what, got)
                continue
            close_to(got, w.get(code), tol, what)
    # over the whole table, and over none of it
    allx = [x for _, x in rows if x is not None]
    r = J(L.ss_sh_sql("select var(x), variance(x), count(x) from t where x is not null"))["rows"][0]
    eq(r[2], len(allx), "count")
    if len(allx) > 1 and all(abs(x) < 1e4 for x in allx):
        near(r[0], moments(allx)["v1"], "variance over all", 1e-9, 1e-9)
    r = J(L.ss_sh_sql("select %s from t where 1=2" % ", ".join("%s(x)" % a for a in AGG)))["rows"][0]
    eq(r, [None] * len(AGG), "aggregates over no rows")
    # as the library computes them
    if len(allx) > 3:
        v = vec([float(x) for x in allx])
        if all(abs(x) < 1e4 for x in allx):
            sp = max(1.0, moments(allx)["v0"])
            for a, f in (("var", lambda: L.dp_sh_vvar(v)), ("skew", lambda: L.dp_apop_vector_skew(v)), ("kurt", lambda: L.dp_apop_vector_kurtosis(v))):
                near(L.ds_sh_qfloat("select %s(x) from t where x is not null" % a), f(), "%s in the database and of a vector" % a, 1e-8, 1e-8 * sp ** 2)
    return ["nt"] if big > 3 else []


# ------------------------------------------------------------------ unbiased
@st.composite
def unb(draw):
    k = draw(st.integers(2, 3))
    n = draw(st.integers(2, 5 if k == 2 else 4))
    p = [draw(st.integers(1, 4)) for _ in range(k)]
    return {"n": n, "x": [draw(st.integers(-6, 6)) for _ in range(k)], "p": p}


def run_unb(c):
    n, xs = c["n"], c["x"]
    tot = sum(c["p"])
    P = [w / tot for w in c["p"]]
    mu = sum(x * p for x, p in zip(xs, P))
    cm = {k: sum((x - mu) ** k * p for x, p in zip(xs, P)) for k in (2, 3, 4)}
    L.is_sh_query("create table t(s integer, x real)")
    W = []
    ins = []
    for s, ix in enumerate(itertools.product(range(len(xs)), repeat=n)):
        W.append(math.prod(P[i] for i in ix))
        ins += ["(%d, %d)" % (s, xs[i]) for i in ix]
    L.is_sh_query("insert into t values " + ", ".join(ins))
    r = J(L.ss_sh_sql("select var(x), skew(x), kurt(x), var_pop(x) from t group by s order by s"))["rows"]
    for i, k, least in ((0, 2, 2), (1, 3, 3), (2, 4, 4)):
        if n >= least:
            near(sum(w * row[i] for w, row in zip(W, r)), cm[k], "mean of the sample moment %d over all samples of %d from %s with weights %s" % (k, n, xs, c["p"]), 1e-9, 1e-8)
    near(sum(w * row[3] for w, row in zip(W, r)), cm[2] * (n - 1) / n, "mean of the population variance over all samples", 1e-9, 1e-8)
    return ["nt"] if len(set(xs)) > 1 else []


# ------------------------------------------------------------------ maths functions
libm = ctypes.CDLL("libm.so.6")
ONE = ["sqrt", "exp", "log", "ln", "log10", "sin", "cos", "tan", "asin", "acos", "atan"]
x_s = st.one_of(st.none(), st.floats(-1, 1), st.floats(-50, 50), st.integers(-9, 9), st.sampled_from([0, 1, -1, 0.5, 2, 10, 100, 1000, 1e-8, 1e10, 800, -800]))


def cfun(name, *a):
    f = getattr(libm, {"ln": "log"}.get(name, name))
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * len(a)
    return f(*[float(x) for x in a])


def res(got, want, what):
    if want != want:
        eq(got, None, what)
    elif got in ("Infinity", "-Infinity", "inf", "-inf"):
        eq(float(got), want, what)
    else:
        check(got is not None and (got == want or abs(got - want) <= 1e-14 * abs(want)), what.replace("%", "%%") + ": got %s, expected %s", got, want)


@st.composite
def fns(draw):
    near_one = st.tuples(st.floats(-8, 8).map(lambda u: 1 + u * 2.0 ** -31), st.integers(-9, 9).map(lambda k: k * 2 ** 30))
    return {"x": draw(st.lists(st.one_of(st.tuples(x_s, x_s), st.tuples(x_s, x_s), near_one, st.tuples(st.sampled_from([1, -1, 0, 2 ** 31, 2 ** 40 + 1]), st.sampled_from([2 ** 32, 2 ** 31 + 1, -(2 ** 33)]))), min_size=1, max_size=5))}


def run_fns(c):
    L.is_sh_query("create table t(k integer, x, y)")
    for i, (x, y) in enumerate(c["x"]):
        eq(L.is_sh_query("insert into t values(%d, %s, %s)" % (i, lit(x), lit(y))), 0, "insertion")
    r = J(L.ss_sh_sql("select x, y, %s, pow(x, y), ran() from t order by k" % ", ".join("%s(x)" % f for f in ONE)))["rows"]
    seen = []
    for (x, y), row in zip(c["x"], r):
        # the engine's own reading of the literals
        if x is not None:
            check(abs(row[0] - x) <= 1e-14 * abs(x), "value stored for %s is %s", x, row[0])
            x = row[0]
        if y is not None:
            y = row[1]
        for f, got in zip(ONE, row[2:]):
            if x is None:
                eq(got, None, "%s(NULL)" % f)
            else:
                res(got, cfun(f, x), "%s(%r)" % (f, x))
        if x is None or y is None:
            eq(row[2 + len(ONE)], None, "pow(%r, %r)" % (x, y))
        else:
            res(row[2 + len(ONE)], cfun("pow", x, y), "pow(%r, %r)" % (x, y))
        u = row[3 + len(ONE)]
        check(isinstance(u, float) and 0 <= u < 1, "ran() gives %s", u)
        seen.append(u)
    eq(len(set(seen)), len(seen), "distinct random numbers among %s" % seen)
    # by each form of query, and nested
    x, y = c["x"][0]
    if x is not None and x > 0:
        got = L.ds_sh_qfloat("select exp(log(x)) from t where k = 0")
        near(got, float(x), "exp(log(x))", 1e-12, 0)
    near(L.ds_sh_qfloat("select avg(pow(sin(x), 2) + pow(cos(x), 2)) from t"), 1.0 if any(x is not None for x, _ in c["x"]) else NAN, "sin^2 + cos^2", 1e-12, 0)
    return ["nt"] if any(x is not None for x, _ in c["x"]) else ["null"]


FACETS = [Facet("moments", lambda t: mom(), run_mom, quick=2500), Facet("unbiased", lambda t: unb(), run_unb, quick=500), Facet("functions", lambda t: fns(), run_fns, quick=1500)]
