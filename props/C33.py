"""Views show exactly the part asked for."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets with any combination of parts and names; rows, row ranges, columns, column ranges, sub-blocks, row/column vectors, by number and by name, views of views; positions and extents in "
        "and out of bounds; read, then written through, then copied and the copy overwritten. Non-trivial: the part is there and is not the whole. Distinct by the whole case.")
ASSUMPTIONS = ["a view of rows past the end may be NULL or an empty data set (the macros give either)", "views by name are asked for names that are there"]


@st.composite
def case(draw):
    d = draw(G.data(rows=(1, 6), cols=(0, 5), full_names=True if draw(st.booleans()) else None, e=G.anynum, pages=draw(st.integers(0, 1))))
    n = len(d.get("m") or d.get("v") or d.get("t"))
    c = len(d["m"][0]) if d.get("m") else 0
    kinds = ["rs", "rs", "r"] + (["cs", "cs", "c", "rv", "cv", "mrv", "mcv", "subm", "subm", "rs_cs", "cs_rs", "cs_rv", "rs_cv", "rs_rs"] if c else ["cs", "rv", "rs_rs"])
    if d.get("rn"):
        kinds += ["rowt"] + (["rowtv"] if c else [])
    if d.get("cn") and c:
        kinds += ["colt", "coltv"]
    k = draw(st.sampled_from(kinds))
    pos = lambda m: draw(st.one_of(st.integers(0, max(m - 1, 0)), st.integers(0, max(m - 1, 0)), st.integers(-1, m + 1)))
    ln = lambda m: draw(st.integers(1, max(m, 1) + draw(st.sampled_from([0, 0, 0, 2]))))
    r, l, q, e = pos(n), ln(n), pos(c), ln(c)
    if draw(st.booleans()):
        r = min(max(r, 0), n - 1)
        l = min(l, n - r)
        q = min(max(q, 0), max(c - 1, 0))
        e = min(e, c - q) or 1
    out = {"d": d, "k": k, "r": r, "l": l, "c": q, "cl": e, "mode": draw(st.integers(0, 2)), "row2": draw(st.integers(0, 3)), "len2": draw(st.integers(1, 3))}
    if k in ("rowt", "rowtv"):
        out["name"] = draw(st.sampled_from(d["rn"]))
    if k in ("colt", "coltv"):
        out["name"] = draw(st.sampled_from(d["cn"]))
    return out


FILL = -12345.5


def run(c):
    p = mk(c["d"])
    A = dump(p)
    k, r, l, q, e, mode = (c[x] for x in ("k", "r", "l", "c", "cl", "mode"))
    n = len(A["m"] or A["v"] or A["t"])
    nc = max(A["mc"], 0)
    f = FILL
    rows, cols, vector_view, isdata = list(range(n)), list(range(nc)), False, True
    keep_v = keep_w = keep_t = True
    if k == "rs":
        g = L.spiidi_sh_view_rs(p, r, l, f, mode)
    elif k == "r":
        l = 1
        g = L.spidi_sh_view_r(p, r, f, mode)
    elif k == "cs":
        g = L.spiidi_sh_view_cs(p, q, e, f, mode)
    elif k == "c":
        e = 1
        g = L.spidi_sh_view_c(p, q, f, mode)
    elif k in ("rv", "mrv"):
        l = 1
        g = getattr(L, "spidi_sh_view_" + k)(p, r, f, mode)
    elif k in ("cv", "mcv"):
        e = 1
        g = getattr(L, "spidi_sh_view_" + k)(p, q, f, mode)
    elif k == "subm":
        g = L.spiiiidi_sh_view_subm(p, r, q, l, e, f, mode)
    elif k == "rowt":
        r, l = L.ipsc_apop_name_find(L.pp_sh_names(p), c["name"], "r"), 1
        eq(lo(A["n"]["r"][r]), lo(c["name"]), "row found")
        g = L.spsdi_sh_view_rowt(p, c["name"], f, mode)
    elif k == "rowtv":
        r, l = L.ipsc_apop_name_find(L.pp_sh_names(p), c["name"], "r"), 1
        g = L.spsdi_sh_view_rowtv(p, c["name"], f, mode)
    elif k == "colt":
        q, e = L.ipsc_apop_name_find(L.pp_sh_names(p), c["name"], "c"), 1
        g = L.spsdi_sh_view_colt(p, c["name"], f, mode)
    elif k == "coltv":
        q, e = L.ipsc_apop_name_find(L.pp_sh_names(p), c["name"], "c"), 1
        g = L.spsdi_sh_view_coltv(p, c["name"], f, mode)
    elif k in ("rs_cs", "cs_rs"):
        a = (r, l, q, e) if k == "rs_cs" else (r, l, q, e)
        g = getattr(L, "spiiiidi_sh_view_" + k)(p, *a, f, mode)
    elif k == "cs_rv":
        l = 1
        g = L.spiiidi_sh_view_cs_rv(p, q, e, r, f, mode)
    elif k == "rs_cv":
        e = 1
        g = L.spiiidi_sh_view_rs_cv(p, r, l, q, f, mode)
    elif k == "rs_rs":
        g = L.spiiiidi_sh_view_rs_rs(p, r, l, c["row2"], c["len2"], f, mode)
    g = json.loads(g)
    vec_row = k in ("rv", "mrv", "rowtv", "cs_rv")
    vec_col = k in ("cv", "mcv", "coltv", "rs_cv")
    use_rows = k in ("rs", "r", "rowt", "subm", "rs_cs", "cs_rs", "rs_rs", "rs_cv") or vec_row
    use_cols = k in ("cs", "c", "colt", "subm", "rs_cs", "cs_rs", "cs_rv") or vec_col
    inb = True
    if use_rows:
        inb = inb and r >= 0 and r + l <= n
    if use_cols and not (vec_col and q == -1 and k != "mcv"):
        inb = inb and q >= 0 and q + e <= nc
    if vec_row or k == "subm":
        inb = inb and nc > 0
    if k == "rs_rs":
        inb = inb and c["row2"] + c["len2"] <= l
        r, l = r + c["row2"], c["len2"]
    vcol = vec_col and q == -1   # the vector
    if vcol and k == "rs_cv" or vcol:
        inb = inb and (A["v"] is not None) and k != "mcv"
    if not inb:
        empty = g is None or (isinstance(g, dict) and g["v"] is None and g["m"] is None and g["w"] is None and g["ts"][0] * g["ts"][1] == 0)
        if not empty and isinstance(g, dict):
            # what parts there are must be there in the original: none is
            raise Bad("a view of a part that is not there: %s" % short(g))
        check(empty, "a view of a part that is not there: %s", g)
        eq(dump(p), A, "data after asking for a part that is not there")
        free(p)
        return ["outside"]
    ri = range(r, r + l) if use_rows else range(n)
    ci = range(q, q + e) if use_cols else range(nc)
    W = norm_copy(A)
    if vec_row:
        eq(g, [f if mode else A["m"][r][j] for j in ci], "row view")
        if mode:
            for j in ci:
                W["m"][r][j] = f
    elif vec_col:
        eq(g, [f if mode else (A["v"][i] if vcol else A["m"][i][q]) for i in ri], "column view")
        if mode:
            for i in ri:
                if vcol:
                    W["v"][i] = f
                else:
                    W["m"][i][q] = f
    elif k == "subm":
        eq(g, [[f if mode else A["m"][i][j] for j in ci] for i in ri], "sub-matrix view")
        if mode:
            for i in ri:
                for j in ci:
                    W["m"][i][j] = f
    else:
        vw = not use_cols and A["v"]
        if mode:
            for i in ri:
                if vw:
                    W["v"][i] = f
                for j in ci:
                    W["m"][i][j] = f
                if mode == 2 and A["w"]:
                    W["w"][i] = f
        eq(g["v"], [W["v"][i] for i in ri] if vw else None, "vector of the view")
        eq(g["m"], [[W["m"][i][j] for j in ci] for i in ri] if nc else None, "matrix of the view")
        eq(g["w"], [W["w"][i] for i in ri] if A["w"] else None, "weights of the view")
        if not use_cols:
            eq(strip(dict(g, more=None))["t"], [A["t"][i] for i in ri] if A["t"] else None, "text of the view")
            eq(g["n"]["t"], A["n"]["t"], "text names of the view")
            eq(g["n"]["v"], A["n"]["v"], "vector name of the view")
        eq(g["n"]["r"], [A["n"]["r"][i] for i in ri] if A["n"]["r"] else [], "row names of the view")
        eq(g["n"]["c"], [A["n"]["c"][j] for j in ci] if A["n"]["c"] else [], "column names of the view")
        eq(g["n"]["title"], A["n"]["title"], "title of the view")
    eq(dump(p), W, "data after %s through the view" % ("writing" if mode else "reading"))
    # a copy of a view is a data set of its own
    if k in ("rs", "cs"):
        B = dump(p)
        cp = L.ppii_sh_copy_rs(p, r, l) if k == "rs" else L.ppii_sh_copy_cs(p, q, e)
        D = dump(cp)
        eq({x: D[x] for x in "vmw"}, {x: g[x] for x in "vmw"}, "copy of the view")
        eq(D["n"], g["n"], "names of the copy of the view")
        n2 = L.pp_sh_names(cp)
        for ty, kk in (("r", "r"), ("c", "c")):
            for x in D["n"][kk]:
                i = L.ipsc_apop_name_find(n2, x, ty)
                eq(i, D["n"][kk].index(x), "position of name %r in the copy of the view" % x)
        L.vp_sh_scramble(cp)
        free(cp)
        eq(dump(p), B, "data after overwriting a copy of its view")
    free(p)
    whole = len(ri) == n and len(ci) == nc
    return [] if whole else ["nt"]


def norm_copy(A):
    return json.loads(json.dumps(A))


@st.composite
def chain_c(draw):
    d = draw(G.data(rows=(2, 7), cols=(2, 6), full_names=True if draw(st.booleans()) else None, e=G.anynum, pages=0).filter(lambda d: d.get("m")))
    r, l, q, e = 0, len(d["m"]), 0, len(d["m"][0])
    ops = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 4]))):
        byc = draw(st.booleans())
        m = e if byc else l
        a = draw(st.integers(0, max(0, min(m - 1, 2))))
        n = draw(st.integers(max(1, m - a - 2), m - a))
        ops += [int(byc), a, n]
        if byc:
            e = n
        else:
            l = n
    a, b = draw(st.integers(0, l - 1)), draw(st.integers(0, e - 1))
    return {"d": d, "ops": ops, "kind": draw(st.sampled_from("drcRCsSTU")), "a": a, "b": b, "la": draw(st.integers(1, l - a)), "lb": draw(st.integers(1, e - b)), "mode": draw(st.sampled_from([0, 0, 1, 2]))}


def run_chain(c):
    p = mk(c["d"])
    A = dump(p)
    f, mode, kind = FILL, c["mode"], c["kind"]
    ri, ci, ofcols = list(range(len(A["m"]))), list(range(len(A["m"][0]))), False
    for i in range(0, len(c["ops"]), 3):
        byc, s, n = c["ops"][i:i + 3]
        if byc:
            ci, ofcols = ci[s:s + n], True
        else:
            ri = ri[s:s + n]
    a, b, la, lb = c["a"], c["b"], c["la"], c["lb"]
    g = json.loads(L.spiIiiiiidi_sh_view_chain(p, len(c["ops"]) // 3, c["ops"], ord(kind), a, b, la, lb, f, mode))
    if kind in "rR":
        ri = [ri[a]]
    elif kind in "cC":
        ci = [ci[b]]
    elif kind != "d":
        ri, ci = ri[a:a + la], ci[b:b + lb]
        if kind in "SU":
            ci = ci[-1:]
        if kind in "TU":
            ri = ri[-1:]
    W = norm_copy(A)
    if mode:
        for i in ri:
            for j in ci:
                W["m"][i][j] = f
            if kind == "d" and W["v"] and not ofcols:
                W["v"][i] = f
            if kind == "d" and W["w"] and mode == 2:
                W["w"][i] = f
    part = [[W["m"][i][j] for j in ci] for i in ri]
    if kind in "rcRCST":
        eq(g, [x for r in part for x in r], "vector view of a view")
    elif kind in "sU":
        eq(g, part, "sub-matrix of a view")
    else:
        eq(g["m"], part, "matrix of the view of a view")
        eq(g["v"], [W["v"][i] for i in ri] if W["v"] and not ofcols else None, "vector of the view of a view")
        eq(g["w"], [W["w"][i] for i in ri] if W["w"] else None, "weights of the view of a view")
        eq(g["n"]["r"], [A["n"]["r"][i] for i in ri] if A["n"]["r"] else [], "row names of the view of a view")
        eq(g["n"]["c"], [A["n"]["c"][j] for j in ci] if A["n"]["c"] else [], "column names of the view of a view")
    eq(dump(p), W, "data after %s through a view of a view" % ("writing" if mode else "reading"))
    free(p)
    return [kind] + (["nt"] if len(part) * len(part[0]) < len(A["m"]) * len(A["m"][0]) else [])


FACETS = [Facet("view", lambda t: case(), run, quick=12000), Facet("chain", lambda t: chain_c(), run_chain, quick=5000),
          Facet("large view", lambda t: G.large(case), run, quick=80), Facet("large chain", lambda t: G.large(chain_c), run_chain, quick=60)]
