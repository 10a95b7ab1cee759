"""Stacking, splitting and resizing."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Pairs of data sets stacked by rows or columns (in place or not, conforming or with one dimension wrong, NULL on either side, or with itself), data sets "
        "split at every position and stacked back, pairs of vectors and matrices incl. views and NULLs stacked, and histories of up to 8 resizes of a vector and a matrix. "
        "Non-trivial: both sides have content (stack), the split point is inside, or a history both grows and shrinks. Distinct by the whole case.")
ASSUMPTIONS = ["within one data set the row counts of the parts agree", "row, column and text names are complete or absent in both sets",
               "when columns are stacked and both sets have a vector the documentation and the code differ on whether the second vector is kept as a column; either is accepted"]


@st.composite
def pair(draw):
    full = draw(st.booleans())
    pos = draw(st.sampled_from("rc"))
    r1 = draw(G.size(1, 4))
    c1 = draw(G.size(0, 4, 8))
    t1 = draw(G.size(0, 3, 6))
    kw = dict(names=full, full_names=True, e=G.anynum)
    a = draw(G.data(rows=(r1, r1), cols=(c1, c1), text=(t1, t1), **kw))
    if draw(st.integers(0, 2)) == 0:
        kw["names"] = not full
    if pos == "r":
        r2, c2, t2 = draw(G.size(1, 4)), draw(st.sampled_from([c1, c1, c1, 0])) if c1 else draw(st.sampled_from([0, 2])), t1
    else:
        r2, c2, t2 = r1, draw(G.size(0, 4, 8)), draw(G.size(0, 3, 6))
    if pos == "r" and t1 and draw(st.integers(0, 3)) == 0:
        t2 = 0
    elif pos == "r" and not t1:
        t2 = draw(st.sampled_from([0, 2]))
    b = draw(G.data(rows=(r2, r2), cols=(c2, c2), text=(t2, t2), **kw))
    if draw(st.integers(0, 5)) == 0:
        a["more"] = {"v": [1.0], "title": "second"}
    if draw(st.integers(0, 5)) == 0:
        b["more"] = {"v": [2.0], "title": "other"}
    mode = draw(st.sampled_from(["n", "n", "y", "null1", "null2", "null2y", "self"] + ["bad"] * 2))
    if mode == "bad":
        what = [k for k in "mt" if a.get(k) and b.get(k)]
        if not what:
            mode = "n"
        else:
            k = draw(st.sampled_from(what))
            if pos == "r":
                b[k] = [r + r[:1] for r in b[k]]
                for nm, kk in (("cn", "m"), ("tn", "t")):
                    if kk == k and nm in b:
                        b[nm] = b[nm] + ["extra"]
            else:
                for kk in "mtvw":
                    if kk in b:
                        b[kk] = b[kk] + b[kk][:1]
                if "rn" in b:
                    b["rn"] = b["rn"] + ["extra"]
    return {"a": a, "b": b, "pos": pos, "mode": mode, "bad": draw(st.sampled_from("ny"))}


def cat(x, y):
    return (x or []) + (y or []) or None


def side(x, y):
    if not x or not y:
        return x or y
    return [p + q for p, q in zip(x, y)]


def run_pair(c):
    pos, mode = c["pos"], c["mode"]
    if mode in ("null1", "null2", "null2y"):
        p = mk(c["a"])
        before = dump(p)
        r = L.pppcc_sh_stack(None if mode == "null1" else p, p if mode == "null1" else None, pos, "y" if mode == "null2y" else "n")
        eq(dump(r), before, "stacking with NULL")
        check((r == p) == (mode == "null2y"), "stacking with NULL: wrong set returned")
        eq(dump(p), before, "source")
        return []
    a = mk(c["a"])
    b = a if mode == "self" else mk(c["b"])
    A, B = dump(a), dump(b)
    inp = "y" if mode == "y" or (mode == "bad" and c["bad"] == "y") else "n"
    out = L.pppcc_sh_stack(a, b, pos, inp)
    eq(dump(b), B, "second set after stacking")
    if inp == "n":
        check(out != a, "not in place, yet the first set was returned")
        eq(dump(a), A, "first set after stacking")
    else:
        check(out == a, "in place, yet another set was returned")
    g = dump(out)
    if mode == "bad":
        eq(g["err"], "d", "error flag for sets that do not fit together")
        free(out)
        return ["nt", "refused"]
    eq(g["err"], "", "error flag")
    na, nb = A["n"], B["n"]
    rows = lambda x: max(len(x[k]) if x[k] else 0 for k in "vmt")
    if pos == "r":
        want = {k: cat(A[k], B[k]) for k in "vmwt"}
        pad = [""] * (rows(A) - len(na["r"])) if nb["r"] else []
        wn = {"title": na["title"], "v": na["v"], "r": na["r"] + pad + nb["r"], "c": na["c"], "t": na["t"]}
        alt, altn = None, None
    else:
        want = {"v": A["v"] or B["v"], "m": side(A["m"], B["m"]), "w": A["w"], "t": side(A["t"], B["t"])}
        mcols = len(A["m"][0]) if A["m"] else 0
        pad = [""] * (mcols - len(na["c"])) if nb["c"] else []
        wn = {"title": na["title"], "v": na["v"] if A["v"] else (nb["v"] if B["v"] and nb["v"] is not None else na["v"]), "r": na["r"],
              "c": na["c"] + pad + nb["c"], "t": na["t"] + (nb["t"] if B["t"] else [])}
        alt = altn = None
        if A["v"] and B["v"]:
            alt = dict(want, m=side(side(A["m"], [[x] for x in B["v"]]), B["m"]))
            extra = [nb["v"]] if nb["v"] is not None else ["v"] if nb["c"] else []
            altn = dict(wn, c=na["c"] + ([""] * (mcols - len(na["c"])) if extra or nb["c"] else []) + extra + nb["c"])
    got = {k: g[k] for k in "vmwt"}
    if alt is not None and same(got, alt):
        eq(g["n"], altn, "names of the stack")
    else:
        eq(got, want, "stack by " + pos)
        eq(g["n"], wn, "names of the stack by " + pos)
    labels = ["nt"] + ([mode] if mode != "n" else [])
    # split it again
    if mode == "n" and pos == "r" and not c["a"].get("more") and all(bool(A[k]) == bool(B[k]) for k in "vmwt"):
        x, y = pp(), pp()
        L.vpicpp_sh_split(out, rows(A), "r", ref(x), ref(y))
        gx, gy = dump(x.value), dump(y.value)
        for k in "vmwt":
            eq(gx[k], A[k], "first part after splitting the stack: " + k)
            eq(gy[k], B[k], "second part after splitting the stack: " + k)
        if na["r"] and nb["r"]:
            eq([gx["n"]["r"], gy["n"]["r"]], [na["r"], nb["r"]], "row names after splitting the stack")
        labels += ["split-back"]
    if out != a:
        free(out)
    free(a)
    return labels


@st.composite
def splits(draw):
    d = draw(G.data(rows=(1, 5), cols=(0, 5), text=(0, 2), full_names=True, names=draw(st.booleans()), e=G.anynum))
    rc = draw(st.sampled_from("rcRC"))
    n = len(d.get("m") or d.get("v") or d.get("t")) if rc in "rR" else len(d["m"][0]) if "m" in d else 0
    return {"d": d, "rc": rc, "at": draw(st.integers(-2, n + 2))}


def empty(x):
    return x is None or all(not x[k] for k in "vm") and not (x["t"] or None)


def run_split(c):
    a = mk(c["d"])
    A = dump(a)
    x, y = pp(), pp()
    at = c["at"]
    L.vpicpp_sh_split(a, at, c["rc"], ref(x), ref(y))
    eq(dump(a), A, "source after splitting")
    gx, gy = dump(x.value), dump(y.value)
    n = A["n"]
    if c["rc"] in "rR":
        rows = max(len(A[k]) if A[k] else 0 for k in "vmt")
        k = min(max(at, 0), rows)
        wx = {p: A[p][:k] or None if A[p] else None for p in "vmwt"}
        wy = {p: A[p][k:] or None if A[p] else None for p in "vmwt"}
        nx, ny = dict(n, r=n["r"][:k]), dict(n, r=n["r"][k:])
        keys, nk = "vmwt", ("v", "r", "c", "t")
        xe, ye = k == 0, k == rows
    else:
        cols = len(A["m"][0]) if A["m"] else 0
        k = min(max(at, -1), cols)
        cut = max(k, 0)
        wx = {"v": A["v"] if k > -1 else None, "m": [r[:cut] for r in A["m"]] if A["m"] and cut else None}
        wy = {"v": A["v"] if k == -1 else None, "m": [r[cut:] for r in A["m"]] if A["m"] and cut < cols else None}
        if k == cols and cols == 0 and k != -1:
            wx["v"], wy["v"] = A["v"], None
        wx["w"] = wy["w"] = A["w"]
        nx, ny = dict(n, c=n["c"][:cut]), dict(n, c=n["c"][cut:])
        keys, nk = "vmw", ("r", "c")
        xe, ye = not wx["v"] and not wx["m"], not wy["v"] and not wy["m"]
    # with the split point at or past the edge one part is the whole set and the other is not there
    low = at <= (0 if c["rc"] in "rR" else -1)
    if low or (at >= rows if c["rc"] in "rR" else A["m"] and at >= cols):
        full, none = (gy, gx) if low else (gx, gy)
        check(none is None and full is not None, "a split at the edge: %s and %s, should be one NULL and one whole", gx, gy)
        for p in ("v", "m", "w", "t", "n"):
            eq(full[p], A[p], "the whole part of a split at the edge (%s)" % p)
    for got, want, wn, e, what in ((gx, wx, nx, xe, "first"), (gy, wy, ny, ye, "second")):
        if e:
            check(empty(got) or (c["rc"] in "cC" and not got["v"] and not got["m"]), "%s part should be empty: %s", what, got)
            continue
        check(got is not None, "%s part is missing", what)
        eq({p: got[p] for p in keys}, {p: want[p] for p in keys}, what + " part")
        eq([got["n"][p] for p in nk], [wn[p] for p in nk], "names of the %s part" % what)
    labels = [] if xe or ye else ["nt"]
    if not xe and not ye and c["rc"] in "rR":
        s = L.pppcc_sh_stack(x.value, y.value, "r", "n")
        g = dump(s)
        eq({p: g[p] for p in "vmwt"}, {p: A[p] for p in "vmwt"}, "split and stacked again")
        eq([g["n"][p] for p in nk], [n[p] for p in nk], "names when split and stacked again")
    L.vp_sh_scramble(x.value), L.vp_sh_scramble(y.value)
    eq(dump(a), A, "source after the parts were overwritten")
    free(x.value), free(y.value), free(a)
    return labels


@st.composite
def vecmats(draw):
    k = draw(st.sampled_from(["v", "m"]))
    if k == "v":
        return {"k": k, "a": draw(st.one_of(st.none(), G.vector(draw(G.size(1, 6, 60)), G.anynum))),
                "b": draw(st.one_of(st.none(), G.vector(draw(G.size(1, 6, 60)), G.anynum))),
                "in": draw(st.sampled_from("ny")), "same": draw(st.integers(0, 6)) == 0}
    r, c = draw(G.size(1, 4, 15)), draw(G.size(1, 4, 15))
    pos = draw(st.sampled_from("rc"))
    r2, c2 = (draw(G.size(1, 4, 15)), c) if pos == "r" else (r, draw(G.size(1, 4, 15)))
    if draw(st.integers(0, 4)) == 0:
        if pos == "r":
            c2 += 1
        else:
            r2 += 1
    return {"k": k, "a": draw(G.matrix(r, c, G.anynum)) if draw(st.integers(0, 6)) else None,
            "b": draw(G.matrix(r2, c2, G.anynum)) if draw(st.integers(0, 6)) else None, "in": draw(st.sampled_from("ny")), "pos": pos,
            "same": draw(st.integers(0, 6)) == 0}


def run_vecmats(c):
    A, B = c["a"], c["b"]
    if c["k"] == "v":
        a, b = vec(A), vec(B)
        if c["same"] and c["in"] == "n":
            b, B = a, A
        o = L.pppc_sh_vector_stack(a, b, c["in"])
        eq(dvec(o), cat(A, B), "stacked vector")
        get, free_ = dvec, L.vp_sh_vector_free
        ok = True
    else:
        a, b = mat(A), mat(B)
        if c["same"] and c["in"] == "n":
            b, B = a, A
        o = L.pppcc_sh_matrix_stack(a, b, c["pos"], c["in"])
        get, free_ = dmat, L.vp_sh_matrix_free
        ok = not A or not B or (len(A[0]) == len(B[0]) if c["pos"] == "r" else len(A) == len(B))
        if ok:
            eq(dmat(o), cat(A, B) if c["pos"] == "r" else side(A, B), "stacked matrix")
        else:
            check(o is None, "matrices that do not fit together were stacked")
            eq(dmat(a), A, "first matrix after a refused stack")
    eq(get(b), B, "second input")
    if c["in"] == "y" and a and ok:
        check(o == a, "in place, but another object was returned")
    elif a:
        eq(get(a), A, "first input")
        check(o != a, "not in place, but the input was returned")
    if o and o != a:
        free_(o)
    if a:
        free_(a)
    if b and b != a:
        free_(b)
    return ["nt"] if A and B else []


@st.composite
def sizes(draw):
    k = draw(st.sampled_from("vm"))
    return {"k": k, "s": draw(st.lists(st.tuples(G.size(1, 9, 5), G.size(1, 9, 5)).map(list), min_size=2, max_size=8))}


def run_sizes(c):
    n = 0
    first = c["s"][0]
    grow = shrink = False
    if c["k"] == "v":
        cur = [float(i) for i in range(first[0])]
        v = L.ppz_apop_vector_realloc(None, first[0])
        for i, x in enumerate(cur):
            L.vpid_sh_vset(v, i, x)
        n = 1000
        for s, _ in c["s"][1:]:
            v = L.ppz_apop_vector_realloc(v, s)
            got = dvec(v)
            eq(len(got), s, "size after resizing")
            k = min(s, len(cur))
            eq(got[:k], cur[:k], "elements kept when resizing to %d" % s)
            grow, shrink = grow or s > len(cur), shrink or s < len(cur)
            cur = cur[:k]
            while len(cur) < s:
                n += 1
                L.vpid_sh_vset(v, len(cur), float(n))
                cur.append(float(n))
        L.vp_sh_vector_free(v)
    else:
        cur = [[float(i * 100 + j) for j in range(first[1])] for i in range(first[0])]
        m = mat(cur)
        n = 10000
        for r, q in c["s"][1:]:
            m = L.ppzz_apop_matrix_realloc(m, r, q)
            got = dmat(m)
            eq([len(got), len(got[0])], [r, q], "size after resizing")
            kr, kc = min(r, len(cur)), min(q, len(cur[0]))
            eq([x[:kc] for x in got[:kr]], [x[:kc] for x in cur[:kr]], "elements kept when resizing %dx%d to %dx%d" % (len(cur), len(cur[0]), r, q))
            grow = grow or r > len(cur) or q > len(cur[0])
            shrink = shrink or r < len(cur) or q < len(cur[0])
            new = []
            for i in range(r):
                row = []
                for j in range(q):
                    if i < kr and j < kc:
                        row.append(cur[i][j])
                    else:
                        n += 1
                        L.vpiid_sh_mset(m, i, j, float(n))
                        row.append(float(n))
                new.append(row)
            cur = new
        L.vp_sh_matrix_free(m)
    return ["nt"] if grow and shrink else []


FACETS = [Facet("stack", lambda t: pair(), run_pair, quick=5000),
          Facet("split", lambda t: splits(), run_split, quick=4000),
          Facet("vecmat", lambda t: vecmats(), run_vecmats, quick=3000),
          Facet("resize", lambda t: sizes(), run_sizes, quick=2500)] + [Facet("large " + n, lambda t, s=s: G.large(s), r, quick=80)
                                                                            for n, s, r in (("stack", pair, run_pair), ("split", splits, run_split), ("vecmat", vecmats, run_vecmats), ("resize", sizes, run_sizes))]
