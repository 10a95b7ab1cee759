"""Dot products, determinants and inverses, principal components, positive-semidefiniteness, element-wise functions."""
import math
from fractions import Fraction as Fr
import numpy as np
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Pairs of data sets of up to 5x5 with vectors, matrices, names and views into larger blocks, every form argument, shapes that fit and shapes that do not; square matrices 1x1 to 6x6 of integers and eighths, many singular, some scaled to 1e-6 or 1e6, "
        "and non-square ones; matrices of 2 to 12 rows for principal components; symmetric matrices with chosen positive, zero and negative eigenvalues. Non-trivial: a product with at least two terms per element and no shared dimension, a determinant "
        "that is neither 0 nor 1 (or an inverse of size at least 2), two or more principal components, a symmetric matrix of size at least 2. Distinct by the whole case.")
ASSUMPTIONS = ["the inverse of a matrix with a condition number above 1e7 is only required to be NULL or finite", "positive-semidefiniteness is asked of symmetric matrices; an eigenvalue within 1e-7 of zero relative to the largest, without an exact reason to be zero, may be read either way",
               "the projection of a matrix whose trace is not positive is only required to be semidefinite"]
NAN = float("nan")
x_s = st.one_of(st.integers(-9, 9), st.integers(-80, 80).map(lambda x: x / 8)).map(float)


def mkm(x, s):
    return L.piiP_sh_mat_strided(len(x), len(x[0]), [y for r in x for y in r]) if s else mat(x)


def mkv(x, s):
    return L.piP_sh_vec_strided(len(x), x) if s else vec(x)


@st.composite
def dot_c(draw):
    k = draw(st.integers(1, 5))
    f = [draw(st.sampled_from(["\0", "\0", "n", "t", "p", "v", "\1"])) for _ in range(2)]
    sets = []
    for side in range(2):
        kind = draw(st.sampled_from(["m", "m", "m", "v", "vm", "vm", ""] if draw(st.integers(0, 5)) == 0 else ["m", "m", "v", "vm"]))
        o = draw(st.integers(1, 5))
        kk = k if draw(st.integers(0, 7)) else draw(st.integers(1, 5))
        t = f[side] in "tp\1"
        rows, cols = (o, kk) if (side == 0) != t else (kk, o)
        d = {}
        if "m" in kind:
            d["m"] = draw(G.matrix(rows, cols, x_s))
            if draw(st.booleans()):
                d["cn"] = ["%s%d" % ("cd"[side], i) for i in range(cols)]
            if draw(st.booleans()):
                d["rn"] = ["%s%d" % ("rs"[side], i) for i in range(rows)]
        if "v" in kind:
            d["v"] = draw(G.vector(kk if kind == "v" or f[side] == "v" or draw(st.booleans()) else draw(st.integers(1, 5)), x_s))
            if draw(st.booleans()):
                d["vn"] = "vec"
        if draw(st.integers(0, 3)) == 0:
            d["title"] = "t%d" % side
        sets.append(d)
    return {"a": sets[0], "b": sets[1], "f": f, "s": draw(st.integers(0, 3)), "self": draw(st.integers(0, 7)) == 0}


def run_dot(c):
    a, b, f = c["a"], c["b"], c["f"]
    if c["self"]:
        b = a

    def side(d, form):
        if d.get("m") and form != "v":
            x = d["m"]
            return ("m", [list(r) for r in zip(*x)] if form in "tp\1" else x)
        return ("v", d["v"]) if d.get("v") else None

    def build(d, strided):
        if not strided:
            return mk(d)
        p = mk({k: v for k, v in d.items() if k not in ("v", "m")}) if d else mk({})
        q = L.ppp_sh_data_of(mkv(d["v"], 1) if d.get("v") else None, mkm(d["m"], 1) if d.get("m") else None)
        n = L.pp_sh_names(q)
        for k, ty in (("rn", "r"), ("cn", "c")):
            for s in d.get(k) or []:
                L.ipsc_apop_name_add(n, s, ty)
        for k, ty in (("vn", "v"), ("title", "h")):
            if d.get(k):
                L.ipsc_apop_name_add(n, d[k], ty)
        return q
    p = build(a, c["s"] & 1)
    q = p if c["self"] else build(b, c["s"] & 2)
    before = dump(p, 9), dump(q, 9)
    o = L.pppcc_sh_dot(p, q, f[0], f[1])
    eq((dump(p, 9), dump(q, 9)), before, "the inputs afterwards")
    l, r = side(a, f[0]), side(b, f[1])
    if l is None or r is None:
        check(not o, "the product of a part that is not there: %s", dump(o) if o else "")
        return ["none"]
    D = dump(o, 9)
    A = l[1] if l[0] == "m" else [l[1]]
    B = r[1] if r[0] == "m" else [[x] for x in r[1]]
    if len(A[0]) != len(B):
        eq([D["err"], D["v"], D["m"]], ["d", None, None], "a product of %d columns and %d rows" % (len(A[0]), len(B)))
        return ["mismatch"]
    w = [[float(sum(Fr(x) * Fr(y) for x, y in zip(row, col))) for col in zip(*B)] for row in A]
    eq(D["err"], "", "error")
    if l[0] == "m" and r[0] == "m":
        check(D["v"] is None, "a vector in the product of two matrices")
        near(D["m"], w, "product", 1e-12, 1e-11)
    else:
        check(D["m"] is None, "a matrix in a product with a vector")
        near(D["v"], [x for y in w for x in y], "product", 1e-12, 1e-11)
    n = lambda d, k, form: (d.get({"r": "c", "c": "r"}[k] + "n" if form in "tp\1" else k + "n") or [])
    eq(D["n"]["r"], n(a, "r", f[0]) if l[0] == "m" else [], "row names")
    eq(D["n"]["c"], n(b, "c", f[1]) if r[0] == "m" else [], "column names")
    return ["nt"] if len(B) > 1 and len({len(A), len(B), len(B[0])}) > 1 else []


@st.composite
def inv_c(draw):
    r = draw(st.integers(1, 6) if draw(st.booleans()) else st.integers(1, 3))
    k = r if draw(st.integers(0, 11)) else draw(st.integers(1, 5))
    x = draw(G.matrix(r, k, draw(st.sampled_from([x_s, x_s, st.integers(-2, 2).map(float), st.integers(0, 1).map(float)]))))
    if r > 1 and draw(st.integers(0, 3)) == 0:
        i, j = draw(st.integers(0, r - 1)), draw(st.integers(0, r - 1))
        x[i] = [2 * a for a in x[j]] if i != j else [0.0] * k
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -20, 2.0 ** 20]))
    return {"m": [[a * s for a in y] for y in x], "s": draw(st.booleans()), "how": draw(st.integers(0, 4))}


def exact_inv(x):
    n = len(x)
    a = [[Fr(v) for v in r] + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(x)]
    det = Fr(1)
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i]), None)
        if p is None:
            return Fr(0), None
        if p != i:
            a[i], a[p] = a[p], a[i]
            det = -det
        det *= a[i][i]
        pv = a[i][i]
        a[i] = [v / pv for v in a[i]]
        for k in range(n):
            if k != i and a[k][i]:
                m = a[k][i]
                a[k] = [u - m * v for u, v in zip(a[k], a[i])]
    return det, [r[n:] for r in a]


def run_inv(c):
    x = c["m"]
    n, how = len(x), c["how"]
    m = mkm(x, c["s"])
    out = pp()
    if how == 0:
        det, inv = L.dp_sh_det(m), 0
    elif how == 1:
        det, inv = 0, L.pp_sh_inv(m)
    else:
        det = L.dppii_sh_det_inv(m, ref(out), int(how != 3), int(how != 4))
        inv = out.value
    eq(dmat(m), x, "the matrix afterwards")
    if len(x[0]) != n:
        if how != 1:
            eq(det, NAN, "determinant of a %dx%d matrix" % (n, len(x[0])))
        check(not inv, "an inverse of a %dx%d matrix", n, len(x[0]))
        return ["not-square"]
    wd, wi = exact_inv(x)
    rowprod = math.prod(math.sqrt(sum(a * a for a in r)) for r in x)
    cond = np.linalg.cond(np.array(x)) if wi else math.inf
    if how in (0, 2, 4):
        if not (det != det and how == 2 and (wi is None or cond > 1e7)):
            near(det, float(wd), "determinant of %s" % x, 1e-9 if cond < 1e5 else 1e-3, 1e-13 * rowprod * n)
    elif how == 3 and inv:
        eq(det, 0.0, "value returned when no determinant is asked for")
    if how in (0, 4):
        check(not inv, "an inverse though none was asked for")
    elif wi is None or cond > 1e7:
        if wi is None and any(not any(r) for r in x):
            check(not inv, "an inverse of a matrix with a row of zeros: %s", dmat(inv) if inv else "")
            if how in (2, 3):
                eq(det, NAN, "value returned for a matrix without inverse")
        if not inv and how in (2, 3):
            eq(det, NAN, "value returned without an inverse")
    else:
        g = dmat(inv)
        top = max(abs(float(v)) for r in wi for v in r)
        near(g, [[float(v) for v in r] for r in wi], "inverse of %s" % x, 1e-9, 1e-14 * cond * top * n)
    return ["nt"] if (how not in (1, 3) and wd not in (0, 1)) or (inv and n > 1) else ["singular"] if wi is None else []


@st.composite
def pca_c(draw):
    k = draw(st.integers(1, 5))
    n = draw(st.integers(2, 12))
    x = draw(G.matrix(n, k, draw(st.sampled_from([x_s, x_s, st.integers(0, 2).map(float)]))))
    if k > 1 and draw(st.integers(0, 4)) == 0:
        for r in x:
            r[-1] = 3 * r[0] - 1
    return {"m": x, "dims": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 7])), "s": draw(st.booleans())}


def run_pca(c):
    x = np.array(c["m"])
    k = x.shape[1]
    m = mkm(c["m"], c["s"])
    dims = c["dims"] or k
    o = L.ppi_sh_pca(m, c["dims"])
    D = dump(o) if o else None
    if dims > k:
        check(D is None or D["err"], "%d principal components of %d columns: %s", dims, k, D)
        return ["too-many"]
    y = x - x.mean(axis=0)
    near(dmat(m), y.tolist(), "the centred columns", 1e-12, 1e-12)
    cov = y.T @ y
    ev = np.sort(np.linalg.eigvalsh(cov))[::-1]
    tot = ev.sum()
    if tot < 1e-9:
        return ["constant"]
    eq([len(D["m"]), D["mc"], len(D["v"])], [k, dims, dims], "shape")
    B, w = np.array(D["m"]), D["v"]
    near(w, (ev[:dims] / tot).tolist(), "weights", 1e-9, 1e-10)
    check(all(a >= b - 1e-15 for a, b in zip(w, w[1:])), "weights %s in the wrong order", w)
    if dims == k:
        near(sum(w), 1.0, "sum of the weights", 1e-10, 0)
    near((B.T @ B).tolist(), np.eye(dims).tolist(), "products of the directions", 0, 1e-9)
    near((cov @ B).tolist(), (B @ np.diag(np.array(w) * tot)).tolist(), "covariance times directions", 1e-7, 1e-7 * tot)
    return ["nt"] if dims > 1 else []


@st.composite
def psd_c(draw):
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["gram", "gram", "low", "eig", "eig", "any", "any", "diag"]))
    if kind in ("gram", "low"):
        b = draw(G.matrix(n if kind == "gram" else draw(st.integers(1, max(1, n - 1))), n, st.integers(-4, 4).map(float)))
        m = [[sum(r[i] * r[j] for r in b) for j in range(n)] for i in range(n)]
    elif kind == "diag":
        e = draw(st.lists(st.sampled_from([0.0, 1.0, 2.0, -1.0, 1e-5, 1e5]), min_size=n, max_size=n))
        m = [[e[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    else:
        lo_ = draw(G.matrix(n, n, st.integers(-6, 6).map(float)))
        m = [[lo_[max(i, j)][min(i, j)] + (draw(st.integers(0, 12)) if i == j and kind == "eig" else 0) for j in range(n)] for i in range(n)]
    skew = n > 1 and draw(st.integers(0, 7)) == 0
    if skew:
        m[0][n - 1] += draw(st.sampled_from([0.5, 3.0, -7.0, 40.0]))
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 0.125, 1024.0, 2.0 ** -30]))
    return {"m": [[float(a) * s for a in r] for r in m], "form": draw(st.sampled_from(["\0", "s", "d"])), "exact": kind in ("gram", "low"), "s": draw(st.booleans())}


def run_psd(c):
    x = np.array(c["m"])
    n = len(x)
    if (x != x.T).any():
        m = mkm(c["m"], c["s"])
        r = L.dp_sh_to_psd(m)
        y = np.array(dmat(m))
        check(np.isfinite(y).all(), "projection %s of %s", y.tolist(), c["m"])
        e = np.linalg.eigvalsh((y + y.T) / 2)
        check(e[0] >= -1e-9 * max(abs(e)), "projection of %s has eigenvalues %s", c["m"], e.tolist())
        near(r, abs(x - y).max() / abs(x).max(), "distance to the projection of %s" % c["m"], 1e-9, 1e-12)
        eq(bool(L.ipc_sh_is_psd(m, "\0")), True, "semidefiniteness of the projection of %s" % c["m"])
        return ["not-symmetric"]
    ev = np.linalg.eigvalsh(x)
    big = max(abs(ev)) or 1.0
    m = mkm(c["m"], c["s"])
    g = L.ipc_sh_is_psd(m, c["form"])
    eq(dmat(m), c["m"], "the matrix afterwards")
    exact = exact_minors(c["m"])
    psd, pd = exact
    lab = ["nt"] if n > 1 else []
    if c["form"] == "d" and psd and any(c["m"][i][i] == 0 for i in range(n)):
        eq(bool(g), False, "positive definiteness of %s, which has a zero row" % c["m"])
        lab.append("zero row")
    elif c["form"] == "d":
        if pd or not psd or not c["exact"]:
            if pd and ev[0] > 1e-6 * big or not psd and ev[0] < -1e-6 * big:
                eq(bool(g), pd, "positive definiteness of %s (eigenvalues %s)" % (c["m"], ev.tolist()))
    elif psd:
        eq(bool(g), True, "semidefiniteness of %s (eigenvalues %s)" % (c["m"], ev.tolist()))
    elif ev[0] < -1e-7 * big:
        eq(bool(g), False, "semidefiniteness of %s (eigenvalues %s)" % (c["m"], ev.tolist()))
    # the projection
    r = L.dp_sh_to_psd(m)
    y = np.array(dmat(m))
    if pd and ev[0] > 1e-6 * big:
        eq(r, 0.0, "distance of a positive definite matrix")
        eq(dmat(m), c["m"], "a positive definite matrix afterwards")
        return lab + ["pd"]
    check(np.isfinite(y).all(), "projection %s of %s", y.tolist(), c["m"])
    near(y.tolist(), y.T.tolist(), "symmetry of the projection", 1e-9, 1e-12 * abs(y).max())
    e2 = np.linalg.eigvalsh(y)
    check(e2[0] >= -1e-9 * max(abs(e2)), "projection of %s has eigenvalues %s", c["m"], e2.tolist())
    near(r, abs(x - y).max() / abs(x).max() if abs(x).max() else 0.0, "distance to the projection of %s" % c["m"], 1e-9, 1e-12)
    eq(bool(L.ipc_sh_is_psd(m, "\0")), True, "semidefiniteness of the projection of %s" % c["m"])
    return lab


def exact_minors(x):
    """(semidefinite, definite) by exact elimination on a symmetric matrix"""
    a = [[Fr(v) for v in r] for r in x]
    n = len(a)
    pd = True
    live = list(range(n))
    while live:
        if any(a[i][i] < 0 for i in live):
            return False, False
        p = next((i for i in live if a[i][i] > 0), None)
        if p is None:
            return (not any(a[i][j] for i in live for j in live)), False
        live.remove(p)
        for i in live:
            f = a[i][p] / a[p][p]
            for j in live:
                a[i][j] -= f * a[p][j]
        pd = pd and True
    return True, pd


@st.composite
def elt_c(draw):
    n = draw(st.integers(1, 9))
    return {"x": draw(G.vector(n, st.one_of(x_s, st.sampled_from([0.0, -1.0, NAN, float("inf"), float("-inf"), 700.0, 1e-300])))), "s": draw(st.booleans())}


def run_elt(c):
    x = c["x"]
    for k, f in (("l", lambda a: math.log(a) if a > 0 else (-math.inf if a == 0 else NAN)), ("t", lambda a: math.log10(a) if a > 0 else (-math.inf if a == 0 else NAN)), ("e", lambda a: math.exp(a) if a < 709 else math.inf)):
        v = mkv(x, c["s"])
        L.vcp_sh_vfn(k, v)
        near(dvec(v), [a if a != a else f(a) for a in x], "function %s of %s" % (k, x), 1e-13, 0)
    v = mkv(x, c["s"])
    eq(dmat(L.ppc_sh_vec_to_mat(v, "\0")), [[a] for a in x], "vector as a matrix")
    eq(dmat(L.ppc_sh_vec_to_mat(v, "r")), [x], "vector as a row")
    eq(dvec(v), x, "the vector afterwards")
    return ["nt"] if len(set(x)) > 2 else []


FACETS = [Facet("dot", lambda t: dot_c(), run_dot, quick=2500), Facet("inverse", lambda t: inv_c(), run_inv, quick=2500), Facet("pca", lambda t: pca_c(), run_pca, quick=1000), Facet("psd", lambda t: psd_c(), run_psd, quick=1500),
          Facet("elements", lambda t: elt_c(), run_elt, quick=600)]
