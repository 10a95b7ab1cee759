"""Copying and transposing data sets."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets with any combination of vector, matrix, weights, text, names and up to two further pages (1 to 5 rows, up to 5 columns): copied whole, "
        "copied from a view, or copied into an existing set, then one side overwritten everywhere and freed; transposed in and out of place with and without text. "
        "Non-trivial: at least two of matrix, vector, text, weights, pages are present (copies); matrix not 1x1 (transposes). Distinct by the whole case.")
ASSUMPTIONS = ["row counts of the parts agree", "name lists are complete or absent when views are taken"]


def parts(d):
    return sum(bool(d.get(k)) for k in ("v", "m", "w", "t", "more"))


@st.composite
def ragged(draw, **kw):
    d = draw(G.data(rows=(1, 5), cols=(0, 5), pages=2, e=G.anynum, **kw))
    if d.get("v") and draw(st.integers(0, 3)) == 0:
        d["v"] = draw(st.lists(G.anynum, min_size=1, max_size=7))
    if d.get("w") and draw(st.integers(0, 3)) == 0:
        d["w"] = draw(st.lists(G.real, min_size=1, max_size=7))
    return d


def run_copy(d):
    a = mk(d)
    before = dump(a)
    eq(before, norm(d), "dump of the built set")
    b = L.pp_apop_data_copy(a)
    eq(dump(b), before, "copy")
    eq(dump(a), before, "source after copy")
    c = L.pp_apop_data_copy(b)
    L.vp_sh_scramble(b)
    eq(dump(a), before, "source after the copy was overwritten")
    free(b)
    eq(dump(a), before, "source after the copy was freed")
    L.vp_sh_scramble(a)
    eq(dump(c), before, "copy after the source was overwritten")
    free(a)
    eq(dump(c), before, "copy after the source was freed")
    free(c)
    return ["nt"] if parts(d) > 1 else []


@st.composite
def views(draw):
    d = draw(G.data(rows=(1, 5), cols=(0, 5), e=G.anynum, full_names=draw(st.booleans())))
    r = len(d.get("m") or d.get("v") or d.get("t"))
    k = draw(st.sampled_from(["rs", "cs", "vec", "mat"]))
    if not d.get("m") and k in ("cs", "mat"):
        k = "rs"
    if not d.get("v") and k == "vec":
        k = "rs"
    n = r if k != "cs" else len(d["m"][0])
    a = draw(st.integers(0, n - 1))
    return {"d": d, "k": k, "at": a, "len": draw(st.integers(1, n - a))}


def run_views(c):
    d, at, ln = c["d"], c["at"], c["len"]
    a = mk(d)
    before = dump(a)
    full = norm(d)
    if c["k"] == "vec":
        v = L.pp_apop_vector_copy(L.pp_sh_v(a))
        eq(dvec(v), d["v"], "vector copy")
        L.vp_sh_scramble(a)
        eq(dvec(v), d["v"], "vector copy after the source was overwritten")
        L.vp_sh_vector_free(v)
    elif c["k"] == "mat":
        m = L.pp_apop_matrix_copy(L.pp_sh_m(a))
        eq(dmat(m), d["m"], "matrix copy")
        L.vp_sh_scramble(a)
        eq(dmat(m), d["m"], "matrix copy after the source was overwritten")
        L.vp_sh_matrix_free(m)
    else:
        b = (L.ppii_sh_copy_rs if c["k"] == "rs" else L.ppii_sh_copy_cs)(a, at, ln)
        eq(dump(a), before, "source after copying a view")
        got = strip(dump(b))
        if c["k"] == "rs":
            want = {k: full[k][at:at + ln] if full[k] else None for k in ("v", "m", "w", "t")}
            names = {"title": full["n"]["title"], "v": full["n"]["v"], "c": full["n"]["c"], "t": full["n"]["t"],
                     "r": full["n"]["r"][at:at + ln]}
        else:
            want = {"v": None, "m": [r[at:at + ln] for r in full["m"]], "w": full["w"], "t": None}
            names = {"title": full["n"]["title"], "v": None, "r": full["n"]["r"], "c": full["n"]["c"][at:at + ln], "t": []}
        eq({k: got[k] for k in want}, want, "copy of a view")
        eq(got["n"], names, "names of a copy of a view")
        free(a)
        eq(strip(dump(b)), got, "copy of a view after the source was freed")
        free(b)
    return ["nt"]


@st.composite
def into(draw):
    d = draw(ragged())

    def fill(x):
        if x is None:
            return None
        y = {}
        if x.get("v"):
            y["v"] = [5.0] * len(x["v"])
        if x.get("m"):
            y["m"] = [[6.0] * len(x["m"][0]) for _ in x["m"]]
        if x.get("w"):
            y["w"] = [7.0] * len(x["w"])
        if x.get("t"):
            y["t"] = [["old"] * len(x["t"][0]) for _ in x["t"]]
        for k in ("rn", "cn", "tn"):
            if x.get(k) and draw(st.booleans()):
                y[k] = draw(G.vector(len(x[k]), G.name))
        for k in ("vn", "title"):
            if x.get(k) is not None and draw(st.booleans()):
                y[k] = draw(G.name)
        if x.get("more"):
            y["more"] = fill(x["more"])
        return y
    y = whole = fill(d)
    page = 0
    if d.get("more") and draw(st.booleans()):       # what is refused is on the second page
        d0, d, y, page = d, d["more"], y["more"], 1
    bad = draw(st.sampled_from([None, None, None, "nov", "nom", "now", "v", "m", "w", "t", "notext"]))
    if bad == "nov" and d.get("v"):
        del y["v"]
    elif bad == "nom" and d.get("m"):
        del y["m"]
    elif bad == "now" and d.get("w"):
        del y["w"]
    elif bad == "notext" and d.get("t"):
        del y["t"]
    elif bad == "v" and d.get("v"):
        y["v"] = y["v"] + [1.0]
    elif bad == "w" and d.get("w"):
        y["w"] = y["w"] + [1.0]
    elif bad == "m" and d.get("m"):
        y["m"] = [r + [1.0] for r in y["m"]] if draw(st.booleans()) else y["m"] + [list(y["m"][0])]
    elif bad == "t" and d.get("t"):
        y["t"] = [r + ["more"] for r in y["t"]] if draw(st.booleans()) else (y["t"][:-1] or None)
        if y["t"] is None:
            del y["t"]
    else:
        bad = None
    return {"d": d0 if page else d, "to": whole, "bad": bad, "page": page}


def run_into(c):
    d = c["d"]
    a, b = mk(d), mk(c["to"])
    before = dump(a)
    L.vpp_apop_data_memcpy(b, a)
    eq(dump(a), before, "source after copying into another set")
    got = dump(b)
    if c["bad"] is None:
        eq(got, before, "destination")
        L.vp_sh_scramble(b)
        eq(dump(a), before, "source after the destination was overwritten")
        free(a), free(b)
        return ["nt"] if parts(d) > 1 else []
    bad = c["bad"]
    if c["page"]:
        more = got.pop("more")
        eq(got, {k: v for k, v in before.items() if k != "more"}, "first page of the destination when the second does not fit")
        got, before, d, c = more, before["more"], d["more"], dict(c, to=c["to"]["more"])
    short = "t" not in c["to"] or len(c["to"]["t"]) < len(d["t"]) if bad in ("t", "notext") else False
    if bad in ("t", "notext") and not short:
        eq(got["err"], "", "error flag with a roomier text grid")
        w = [list(r) for r in c["to"]["t"]]
        for i, r in enumerate(before["t"]):
            w[i][:len(r)] = r
        eq(got["t"], w, "text in a roomier grid")
    else:
        want = "p" if bad in ("nov", "nom", "now") else "d"
        eq(got["err"], want, "error flag when the shapes differ (%s)" % bad)
    free(a), free(b)
    return ["nt", "refused"]


def transposed_names(n, m, t):
    """names after transposing: row names label the columns of matrix and text; column names (text's if the
    matrix has none) label the rows"""
    out = {"title": None, "v": None, "r": [], "c": [], "t": []}
    if m:
        out["c"] = n["r"]
        out["r"] = n["c"]
    if t:
        out["t"] = n["r"]
        if not out["r"]:
            out["r"] = n["t"]
    return out


@st.composite
def transposes(draw):
    d = draw(G.data(rows=(1, 5), cols=(0, 5), text=(0, 4), e=G.anynum, full_names=draw(st.booleans())))
    return {"d": d, "tt": draw(st.sampled_from("yn")), "def": draw(st.integers(0, 5)) == 0}


def tr(x):
    return [list(r) for r in zip(*x)] if x else None


def run_transpose(c):
    d = c["d"]
    a = mk(d)
    before = dump(a)
    tt = c["tt"] == "y" or c["def"]
    if not d.get("m") and not d.get("t"):
        b = L.ppcc_sh_transpose(a, c["tt"], "n")
        g = strip(dump(b))
        eq([g[k] for k in "vmwt"], [None] * 4, "transpose of a set with neither matrix nor text")
        return []
    do_t = tt and bool(d.get("t"))
    n = before["n"]
    want_n = transposed_names(n, d.get("m"), do_t)
    if not c["def"]:
        b = L.ppcc_sh_transpose(a, c["tt"], "n")
        eq(dump(a), before, "source after transposing a copy")
        g = strip(dump(b))
        eq([g["v"], g["w"], g["more"]], [None] * 3, "vector, weights, pages of a transposed copy")
        eq(g["m"], tr(d.get("m")), "matrix of a transposed copy")
        eq(g["t"], tr(before["t"]) if do_t else None, "text of a transposed copy")
        gn = {k: g["n"][k] for k in "rct"}
        eq(gn, {k: want_n[k] for k in "rct"}, "names of a transposed copy")
        if d.get("m") and do_t:
            b2 = L.ppcc_sh_transpose(b, "y", "n")
            g2 = dump(b2)
            eq([g2["m"], g2["t"]], [before["m"], before["t"]], "matrix and text transposed twice")
            eq([g2["n"]["r"], g2["n"]["c"]], [g["n"]["c"], g["n"]["r"]], "names transposed twice")
            free(b2)
        free(b)
    p = L.pp_sh_transpose0(a) if c["def"] else L.ppcc_sh_transpose(a, c["tt"], "y")
    check(p == a, "transposing in place returned another set")
    g = strip(dump(a))
    eq([g["v"], g["w"]], [before["v"], before["w"]], "vector and weights after transposing in place")
    eq(g["m"], tr(d.get("m")), "matrix transposed in place")
    eq(g["t"], tr(before["t"]) if do_t else before["t"], "text after transposing in place")
    if d.get("m") or do_t:
        eq([g["n"]["r"], g["n"]["c"]], [want_n["r"], want_n["c"]], "row and column names after transposing in place")
        eq(g["n"]["t"], want_n["t"] if do_t else n["t"], "text names after transposing in place")
    # names still look up where they now are, and twice is back again
    if d.get("m") and (not d.get("t") or not tt):
        L.ppcc_sh_transpose(a, "n", "y")
        g = dump(a)
        eq([g["m"], g["n"]["r"], g["n"]["c"]], [before["m"], n["r"], n["c"]], "matrix and names transposed twice in place")
    free(a)
    return ["nt"] if (d.get("m") and (len(d["m"]) > 1 or len(d["m"][0]) > 1)) or (do_t and len(d["t"]) != len(d["t"][0])) else []


FACETS = [Facet("copy", lambda t: ragged(), run_copy, quick=4000),
          Facet("copyview", lambda t: views(), run_views, quick=2500),
          Facet("memcpy", lambda t: into(), run_into, quick=3500),
          Facet("transpose", lambda t: transposes(), run_transpose, quick=4000)] + [Facet("large " + n, lambda t, s=s: G.large(s), r, quick=60)
                                                                                     for n, s, r in (("copy", ragged, run_copy), ("copyview", views, run_views), ("memcpy", into, run_into), ("transpose", transposes, run_transpose))]
