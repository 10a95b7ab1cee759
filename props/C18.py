"""Binning, merging equal rows, ranks, moving averages."""
import math
from fractions import Fraction as Fr
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data of 1 to 14 rows, vector and/or up to 3 columns (text for merging), weights or none; bins chosen automatically or by a count (1 to 20), or by a specification of widths with and without offsets, with the top bin closed or not, and the page of "
        "a first data set used on a second; drawn values for a binned model; rows from a small pool so that many are equal; counts 0 to 6; windows from 0 to past the end. Non-trivial: at least two bins filled / rows merged / bins with different counts / windows. "
        "Distinct by the whole case.")
ASSUMPTIONS = ["a value closer than 1e-9 of a bin width to an edge (in automatic bins, whose edges are rounded) may be in either bin", "which bin holds the top edge is only promised when the top bin is asked for or implied",
               "how many elements an even-sized window takes is not promised", "observations to be ranked are non-negative integers"]
NAN = float("nan")
x_s = st.one_of(st.integers(-9, 9), st.integers(-80, 80).map(lambda x: x / 8), st.integers(-3, 3).map(lambda x: x * 1000), st.sampled_from([0.1, 0.7, 1e-3, 123456.0])).map(float)


def columns(d):
    """{col: [values]} with -1 the vector"""
    o = {}
    if d.get("v"):
        o[-1] = d["v"]
    for j, c in enumerate(zip(*(d.get("m") or []))):
        o[j] = list(c)
    return o


@st.composite
def bins_c(draw):
    r = draw(G.size(1, 14, 20))
    e = draw(st.sampled_from([x_s, st.integers(0, 3).map(float), st.integers(0, 60).map(float), st.integers(0, 12).map(lambda i: i * 1000.0 + 5)]))
    d = draw(G.data(rows=(r, r), cols=(0, 3), text=None, e=e, names=False))
    d2 = draw(G.data(rows=(1, 6), cols=(len(d["m"][0]),) * 2 if d.get("m") else (0, 0), vec=bool(d.get("v")), text=None, e=e, names=False, weights=False))
    return {"d": d, "n": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 7, 10, 20])), "close": draw(st.sampled_from(["", "", "y", "n"])), "d2": d2}


def in_bin(val, lo, w, loose):
    return lo - loose <= val < lo + w + loose


def run_bins(c):
    d, cl = c["d"], c["close"] or "y"
    p = mk(d)
    before = dump(p, 9)
    o = L.pppic_sh_to_bins(p, None, c["n"], c["close"] or "\0")
    D = dump(o, 9)
    eq(dump(p, 9), before, "the input afterwards")
    eq(D["w"], d.get("w"), "weights")
    eq([D["v"] is None, D["mc"], len(D["m"] or [])], [not d.get("v"), len(d["m"][0]) if d.get("m") else -1, len(d.get("m") or [])], "shape")
    pg = D["more"]
    check(pg is not None and pg["n"]["title"] == "<binspec>", "no page with the bins")
    lab = []
    X, Y, B = columns(d), columns(D), columns(pg)
    eq(sorted(B), sorted(X), "columns of the bins page")
    widths = {}
    for j, x in X.items():
        w, off = B[j]
        lo_, hi = min(x), max(x)
        n = c["n"] or math.sqrt(len(x))
        eq(off, lo_, "offset")
        if hi > lo_:
            near(w, (hi - lo_) / n, "width", 1e-12, 0)
        else:
            check(w > 0, "width %s of the bin of a constant column", w)
        widths[j] = (w, off)
        used = set()
        for a, b in zip(x, Y[j]):
            k = (b - off) / w
            check(abs(k - round(k)) < 1e-6, "%s is in a bin at %s, but they start at %s with width %s", a, b, off, w)
            used.add(round(k))
            loose = w * 1e-9 + 4e-16 * abs(a)
            if a == hi and cl == "y" and hi > lo_:
                check(b < a and a <= b + w + loose, "the largest, %s, is in the bin at %s of width %s", a, b, w)
            else:
                check(in_bin(a, b, w, loose), "%s is in the bin at %s of width %s", a, b, w)
            for a2, b2 in zip(x, Y[j]):
                if a2 == a:
                    eq(b2, b, "bins of equal values")
                elif a2 < a:
                    check(b2 <= b, "bins out of order: %s in %s, %s in %s", a, b, a2, b2)
        if cl == "y" and hi > lo_:
            check(used <= set(range(math.ceil(n))), "bins %s with %s asked for", sorted(used), n)
        if len(used) > 1:
            lab = ["nt"]
    # a second set on the same grid
    p2 = mk(c["d2"])
    spec = L.pps_apop_data_get_page_base if False else None
    D2 = dump(L.pppic_sh_to_bins(p2, L.pp_sh_more(o), 0, "\0"), 9)
    check(D2["more"] is None, "a page of bins though they were given")
    for j, x in columns(c["d2"]).items():
        w, off = widths[j]
        for a, b in zip(x, columns(D2)[j]):
            loose = w * 1e-9 + 4e-16 * (abs(a) + abs(off))
            check(in_bin(a, b, w, loose), "%s is in the bin at %s of width %s", a, b, w)
            k = (b - off) / w
            check(abs(k - round(k)) < 1e-6, "bin at %s off the grid %s, %s", b, off, w)
    return lab + (["one-value"] if len(X) and len(set(x)) == 1 else [])


@st.composite
def spec_c(draw):
    d = draw(G.data(rows=(1, 12), cols=(0, 3), text=None, e=st.one_of(st.integers(-40, 40).map(lambda x: x / 4), st.integers(-12, 12).map(float)), names=False))
    k = len(columns(d))
    return {"d": d, "w": draw(st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 64.0]), min_size=k, max_size=k)), "o": draw(st.none() | st.lists(st.sampled_from([0.0, 0.0, 0.5, -1.25, 3.0]), min_size=k, max_size=k)),
            "close": draw(st.sampled_from(["", "n", "y"])), "n": draw(st.sampled_from([0, 3]))}


def run_spec(c):
    d = c["d"]
    X = columns(d)
    ks = sorted(X)
    s = {}
    o = c["o"] or [0.0] * len(ks)
    for k, w, f in zip(ks, c["w"], o):
        rows = [w, f] if c["o"] else [w]
        if k == -1:
            s["v"] = rows
        else:
            s.setdefault("m", [[] for _ in rows])
            for r, x in zip(s["m"], rows):
                r.append(x)
    p, sp = mk(d), mk(s)
    before, sb = dump(p, 9), dump(sp, 9)
    D = dump(L.pppic_sh_to_bins(p, sp, c["n"], c["close"] or "\0"), 9)
    eq([dump(p, 9), dump(sp, 9)], [before, sb], "the inputs afterwards")
    eq(D["w"], d.get("w"), "weights")
    check(D["more"] is None, "a page of bins though they were given")
    lab = []
    for k, w, f in zip(ks, c["w"], o):
        want = [math.floor((a - f) / w) * w + f for a in X[k]]
        if c["close"] == "y":
            m = max(X[k])
            if ((m - f) / w).is_integer() and min(X[k]) < m:
                # the topmost points stand on an edge: the bin below takes them
                want = [b - w if a == m else b for a, b in zip(X[k], want)]
        elif c["close"] == "y":
            pass
        got = columns(D)[k]
        if c["close"] == "y" and min(X[k]) == max(X[k]):
            continue
        eq(got, want, "bins of column %d: %s, width %s, offset %s" % (k, X[k], w, f))
        if len(set(want)) > 1:
            lab = ["nt"]
    return lab


@st.composite
def pmf_c(draw):
    dim = draw(st.integers(1, 2))
    return {"x": draw(st.lists(st.integers(-20, 20).map(lambda x: x / 4), min_size=1, max_size=6)), "dim": dim, "spec": draw(st.none() | st.sampled_from([0.5, 1.0, 3.0])), "off": draw(st.booleans()), "draws": draw(st.integers(1, 60)),
            "n": draw(st.sampled_from([0, 3, 5]))}


def run_pmf(c):
    x, k = c["x"], c["dim"]
    sp = {"m": [[c["spec"]] * k] + ([[0.5] * k] if c["off"] else [])} if c["spec"] else None
    s = mk(sp) if sp else None
    buf = dbls(x)
    o = L.piPipii_sh_model_to_pmf(len(x), buf, k, s, c["draws"], c["n"])
    D = dump(o, 9)
    check(D["w"] is not None, "no weights")
    near(sum(D["w"]), 1.0, "total weight", 1e-12, 0)
    for w in D["w"]:
        t = w * c["draws"]
        check(w > 0 and abs(t - round(t)) < 1e-9 * c["draws"], "weight %s of a bin after %s draws", w, c["draws"])
    rows = [tuple(r) for r in D["m"]] if D["m"] else [(a,) for a in D["v"]]
    eq(len(set(rows)), len(rows), "number of distinct bins among %s" % rows)
    if c["spec"]:
        off = 0.5 if c["off"] else 0.0
        can = {tuple(math.floor((x[(i + q) % len(x)] - off) / c["spec"]) * c["spec"] + off for q in range(k)) for i in range(len(x))}
        check(set(rows) <= can, "bins %s, but the draws can only be in %s", rows, sorted(can))
    return ["nt"] if len(rows) > 1 else []


@st.composite
def comp_c(draw):
    r = draw(G.size(1, 10, 20))
    e = draw(st.sampled_from([st.integers(0, 1).map(float), st.sampled_from([0.0, 1.0, NAN, -0.0, 1e-9, float("inf")]), st.integers(0, 2).map(float)]))
    d = draw(G.data(rows=(r, r), cols=(0, 2), text=(0, 2), e=e, words_s=st.sampled_from(["a", "A", "", "a b", "b"])))
    if d.get("w"):
        d["w"] = draw(G.vector(r, st.sampled_from([0.0, 1.0, 2.5, 3.0, 1e9])))
    return d


def run_comp(d):
    p = mk(d)
    N = dump(p, 9)
    r = len(N["v"] or N["m"] or N["t"])
    q = L.pp_sh_compress(p)
    eq(q, p, "data set returned")

    def key(i):
        f = lambda x: "nan" if x != x else x + 0.0
        return ((f(N["v"][i]),) if N["v"] else ()) + (tuple(f(x) for x in N["m"][i]) if N["m"] else ()) + (tuple(N["t"][i]) if N["t"] else ())
    keep, wt = [], {}
    for i in range(r):
        k = key(i)
        w = N["w"][i] if N["w"] else 1.0
        if k not in wt:
            keep.append(i)
            wt[k] = []
        wt[k].append(w)
    D = dump(p, 9)
    for a in ("v", "m", "t"):
        eq(D[a], [N[a][i] for i in keep] if N[a] else N[a], "part %s" % a)
    eq(D["w"], [float(sum(wt[key(i)])) for i in keep], "weights")
    rn = N["n"]["r"]
    eq(D["n"]["r"], [rn[i] for i in keep] if rn else [], "row names")
    eq([D["n"][a] for a in ("c", "t", "v", "title")], [N["n"][a] for a in ("c", "t", "v", "title")], "other names")
    once = dump(p, 9)
    L.pp_sh_compress(p)
    eq(dump(p, 9), once, "the same again")
    return ["nt"] if 1 < len(keep) < r else ["all-same"] if len(keep) == 1 else []


@st.composite
def rank_c(draw):
    n, k = draw(st.integers(1, 3)), draw(st.integers(1, 6))
    form = draw(st.sampled_from(["v", "m", "vm"]))
    e = st.integers(0, draw(st.integers(0, 7))).map(float)
    d = {}
    if "v" in form:
        d["v"] = draw(G.vector(draw(st.integers(1, 9)) if form == "v" else n, e))
    if "m" in form:
        d["m"] = draw(G.matrix(n, k, e))
    return {"d": d, "min": draw(st.sampled_from([-1, -1, 0, 1, 3, 6, 12])), "counts": draw(st.lists(st.lists(st.integers(0, 6).map(float), min_size=k, max_size=k), min_size=1, max_size=3)), "vec": draw(st.booleans())}


def run_rank(c):
    d = c["d"]
    all_ = (d.get("v") or []) + [x for r in d.get("m") or [] for x in r]
    p = mk(d)
    before = dump(p)
    o = L.ppi_sh_rank_compress(p, c["min"])
    eq(dump(p), before, "the input afterwards")
    n = int(max(all_ + [c["min"]])) + 1
    want = [float(all_.count(i)) for i in range(n)]
    D = dump(o)
    eq([D["v"], D["m"]], [None, [want]], "counts of %s" % all_)
    E = dump(L.pp_sh_rank_expand(o))
    eq([E["v"], E["m"]], [sorted(all_), None], "expansion of %s" % want)
    # and the other way
    cnt = c["counts"] if not c["vec"] else c["counts"][:1]
    q = mk({"v": cnt[0]} if c["vec"] else {"m": cnt})
    tot = [sum(x) for x in zip(*cnt)]
    E = L.pp_sh_rank_expand(q)
    if not sum(tot):
        check(not E, "an expansion of nothing: %s", dump(E) if E else "")
    else:
        D = dump(E)
        eq(sorted(D["v"]), [float(i) for i, t in enumerate(tot) for _ in range(int(t))], "expansion of %s" % cnt)
        F = dump(L.ppi_sh_rank_compress(E, len(tot) - 1))
        eq(F["m"], [tot], "counts of the expansion of %s" % cnt)
    return ["nt"] if len(set(want)) > 2 else []


@st.composite
def mov_c(draw):
    n = draw(st.integers(1, 12))
    return {"x": draw(G.vector(n, x_s)), "b": draw(st.integers(0, n + 3) | st.sampled_from([100, 2**31])), "s": draw(st.booleans())}


def run_mov(c):
    x, b = c["x"], c["b"]
    v = L.piP_sh_vec_strided(len(x), x) if c["s"] else vec(x)
    o = L.ppz_sh_movavg(v, b)
    eq(dvec(v), x, "the input afterwards")
    if b == 0:
        check(o and o != v, "no copy")
        eq(dvec(o), x, "a copy")
        return ["none"]
    h = b // 2
    n = len(x) - 2 * h
    if n <= 0:
        check(not o, "averages over windows wider than the vector: %s", dvec(o) if o else "")
        return ["wide"]
    g = dvec(o)
    eq(len(g), n, "number of averages")
    for i in range(n):
        w = x[i:i + 2 * h + 1]
        if b % 2:
            near(g[i], float(sum(map(Fr, w)) / len(w)), "average of window %d of %s" % (i, x), 1e-12, 1e-13 * max(map(abs, w)))
        else:
            m = 1e-12 * max(map(abs, w))
            check(min(w) - m <= g[i] <= max(w) + m, "average %s of %s", g[i], w)
    return ["nt"] if h and n > 1 else []


FACETS = [Facet("bins", lambda t: bins_c(), run_bins, quick=1500), Facet("spec", lambda t: spec_c(), run_spec, quick=1200), Facet("draws", lambda t: pmf_c(), run_pmf, quick=400), Facet("merge", lambda t: comp_c(), run_comp, quick=2000),
          Facet("large bins", lambda t: G.large(bins_c), run_bins, quick=60), Facet("large merge", lambda t: G.large(comp_c), run_comp, quick=100),
          Facet("ranks", lambda t: rank_c(), run_rank, quick=1200), Facet("moving", lambda t: mov_c(), run_mov, quick=1000)]
