"""Factors and dummies."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets of 1 to 7 rows with up to three text and four numeric columns and a vector, whose entries repeat (NaNs among the numbers, case variants, blanks and %-signs among the texts): one column turned into factors "
        "(written to any existing column, or to a part that is allocated) or dummies (first category kept or not; apart, appended, inserted; source removed or not), then a second set encoded with the categories of the first, and the "
        "sorted unique elements. Non-trivial: at least two categories, one of them repeated. Distinct by the whole case.")
ASSUMPTIONS = ["no text column has the name of a numeric column", "column and text names are complete or absent", "when categories come with the data, values not among them get the next codes in order of appearance"]

num = st.sampled_from([0.0, 1.0, 2.0, 3.0, -1.0, 2.5, 1e6, 0.1, 2.0, 1.0, float("nan"), 10.0, 1.0000001])
word = st.sampled_from(["a", "b", "B", "A", "ab", "", "100", "20", "caf\xe9", "%s%n", "a b", "zz", "x" * 1200, "x" * 1199 + "y"])
RANK = lambda x: (1, 0.0) if x != x else (0, x)


def uniq_n(x):
    out = []
    for v in sorted(x, key=RANK):
        if not out or not (out[-1] == v or (out[-1] != out[-1] and v != v)):
            out.append(v)
    return out


def uniq_t(x):
    return sorted(set(x), key=lambda s: s.encode("latin1"))


def pos(u, v):
    for i, x in enumerate(u):
        if x == v or (x != x and v != v):
            return i
    return None


@st.composite
def table(draw, rows=(1, 7)):
    r = draw(G.size(*rows, 20))
    n_s, w_s = (lambda n: G.vector(n, num)), (lambda n: G.vector(n, word))
    if G.LARGE and draw(st.booleans()):
        n_s, w_s = G.scatter, lambda n: G.scatter(n).map(lambda x: ["%g" % y for y in x])
    c = draw(st.integers(0, 4))
    tc = draw(st.integers(0, 3))
    v = draw(st.booleans()) or (not c and not tc)
    d = {}
    if v:
        d["v"] = draw(n_s(r))
    if c:
        d["m"] = draw(n_s(r * c).map(lambda x: [x[i * c:i * c + c] for i in range(r)]))
    if tc:
        d["t"] = draw(w_s(r * tc).map(lambda x: [x[i * tc:i * tc + tc] for i in range(r)]))
    if draw(st.booleans()):
        if c:
            d["cn"] = ["c%d" % i for i in range(c)]
        if tc:
            d["tn"] = ["t%d" % i for i in range(tc)]
        if v and draw(st.booleans()):
            d["vn"] = "vee"
        if draw(st.booleans()):
            d["rn"] = ["r%d" % i for i in range(r)]
    if draw(st.integers(0, 4)) == 0:
        d["w"] = [float(i) for i in range(r)]
    return d


def sources(d):
    s = [("t", i) for i in range(len(d["t"][0]))] if d.get("t") else []
    s += [("d", i) for i in range(len(d["m"][0]))] if d.get("m") else []
    if d.get("v"):
        s.append(("d", -1))
    return s


def column(d, k):
    t, i = k
    return [r[i] for r in d["t"]] if t == "t" else list(d["v"]) if i == -1 else [r[i] for r in d["m"]]


def catname(d, k):
    t, i = k
    if t == "t":
        return d["tn"][i] if d.get("tn") else "text column %d" % i
    if i == -1:
        return d["vn"] if d.get("vn") else "vector"
    return d["cn"][i] if d.get("cn") else "column %d" % i


def g6(x):
    return "nan" if x != x else "%g" % x


def check_page(pg, k, u, name, title=True):
    g = dump(pg, 0)
    if title:
        eq(g["n"]["title"], "<categories for %s>" % name, "title of the page of categories")
    if k[0] == "t":
        eq([r[0] for r in g["t"]], u, "categories")
        eq(g["v"], [float(i) for i in range(len(u))], "codes on the page of categories")
    else:
        eq(g["v"], u, "categories")
        eq([r[0].replace("-nan", "nan") for r in g["t"]], [g6(x) for x in u], "text of the categories")


@st.composite
def fac(draw):
    d = draw(table())
    k = draw(st.sampled_from(sources(d)))
    outs = ([-1] if d.get("v") or k[0] == "t" or d.get("m") else []) + (list(range(len(d["m"][0]))) if d.get("m") else [0, 1, 2])
    return {"d": d, "k": list(k), "out": draw(st.sampled_from(outs)), "old": draw(st.integers(0, 4)) == 0,
            "d2": draw(table())}


def encode(col, u):
    codes = []
    for x in col:
        i = pos(u, x)
        if i is None:
            u.append(x)
            i = len(u) - 1
        codes.append(float(i))
    return codes


def apply_factor(p, d, k, out, u, old):
    """run the conversion on p (built from d), compare; u: the categories known before, changed in place"""
    before = dump(p)
    codes = encode(column(d, k), u)
    if old and k[0] == "t" and (out == -1 or d.get("m")):
        pg = L.ppii_sh_text_to_factors(p, k[1], out)
    else:
        pg = L.ppcii_sh_to_factors(p, k[0], k[1], out)
    g = dump(p)
    r = len(codes)
    wv, wm = before["v"], before["m"]
    if out == -1:
        wv = codes
    elif wm:
        wm = [row[:out] + [codes[i]] + row[out + 1:] for i, row in enumerate(wm)]
        eq(len(wm), r, "rows")
    else:
        wm = [[0.0] * out + [x] for x in codes]
    eq([g["v"], g["m"], g["t"], g["w"]], [wv, wm, before["t"], before["w"]], "data after converting %s to factors in column %d" % (k, out))
    eq(g["n"], before["n"], "names after converting to factors")
    check(pg is not None, "no page of categories returned")
    check_page(pg, k, u, catname(d, k))
    check(L.ppic_sh_factor_names(p, k[1], k[0]) == pg, "the page of categories is not found by apop_data_get_factor_names")
    return pg


def run_factors(c):
    d, k = c["d"], tuple(c["k"])
    col = column(d, k)
    u = uniq_t(col) if k[0] == "t" else uniq_n(col)
    n = len(u)
    p = mk(d)
    pg = apply_factor(p, d, k, c["out"], u, c["old"])
    lab = ["nt"] if 1 < n < len(col) else []
    # another set, encoded with the same categories
    d2 = dict(c["d2"])
    k2 = next((s for s in sources(d2) if s[0] == k[0]), None)
    if k2:
        q = mk(d2)
        nm = catname(d2, k2)
        cp = L.pps_sh_copy_page_as(pg, "<categories for %s>" % nm)
        L.vpp_sh_set_more(q, cp)
        new = len([x for x in uniq_t(column(d2, k2)) if x not in u] if k2[0] == "t" else [x for x in uniq_n(column(d2, k2)) if pos(u, x) is None])
        out = c["out"] if (c["out"] == -1 and (d2.get("v") or d2.get("m") or k2[0] == "t")) else 0
        if d2.get("m") and out >= len(d2["m"][0]):
            out = 0
        apply_factor(q, d2, k2, out, list(u), False)
        lab += ["shared categories"] + (["new categories"] if new else [])
        free(q)
    free(p)
    return lab


@st.composite
def dum(draw):
    d = draw(table())
    k = draw(st.sampled_from(sources(d)))
    return {"d": d, "k": list(k), "keep": draw(st.sampled_from(["n", "y"])), "app": draw(st.sampled_from(["n", "n", "y", "e", "i", "i"])),
            "rm": draw(st.sampled_from("nny")), "known": draw(st.lists(word if k[0] == "t" else num, max_size=4)) if draw(st.integers(0, 3)) == 0 else None}


def run_dummies(c):
    d, k = c["d"], tuple(c["k"])
    col = column(d, k)
    p = mk(d)
    if c["known"]:
        kn = []
        [kn.append(x) for x in c["known"] if pos(kn, x) is None]
        u = list(kn)
        f = {"v": [float(i) for i in range(len(kn))], "t": [[x] for x in kn]} if k[0] == "t" else {"v": kn, "t": [[g6(x)] for x in kn]}
        f["title"] = "<categories for %s>" % catname(d, k)
        L.vpp_sh_set_more(p, mk(f))
    else:
        u = uniq_t(col) if k[0] == "t" else uniq_n(col)
    before = dump(p)
    codes = [int(x) for x in encode(col, u)]
    first = 0 if c["keep"] == "y" else 1
    block = [[1.0 if j == x else 0.0 for j in range(first, len(u))] for x in codes]
    names = [x if k[0] == "t" else "%s dummy %s" % (catname(d, k), g6(x)) for x in u[first:]]
    if k[0] == "d":
        names = [x.replace("nan", "nan") for x in names]
    if len(u) == first:
        block = None
    o = L.ppicccc_sh_to_dummies(p, k[1], k[0], c["keep"], c["app"], c["rm"])
    check(o is not None, "no dummies")
    rm = c["rm"] == "y" and k[0] == "d"
    m = [list(r) for r in before["m"]] if before["m"] else None
    cn = before["n"]["c"]
    app = c["app"]
    wm, wn = m, list(cn)
    at = None
    if app != "n":
        at = (k[1] + 1) if app == "i" and k[0] == "d" and m else len(m[0]) if m else 0
        padded = wn + [""] * (len(m[0]) - len(wn) if m and names else 0)
        ins = block or [[] for _ in codes]
        wm = [(r[:at] + b + r[at:]) for r, b in zip(m or [[] for _ in codes], ins)]
        wn = padded[:at] + names + padded[at:]
    if rm and k[1] >= 0:
        wm = [r[:k[1]] + r[k[1] + 1:] for r in wm]
        if len(wn) > k[1]:
            wn = wn[:k[1]] + wn[k[1] + 1:]
    wm = wm if wm and wm[0] else None
    if app == "n":
        check(o != p, "the data set itself was returned though nothing was to be appended")
        go = dump(o)
        eq([go["m"], go["v"]], [block, None], "dummies for %s" % c["k"])
        eq([x.replace("-nan", "nan") for x in go["n"]["c"]], names if block else [], "names of the dummies")
        free(o)
    else:
        check(o == p, "appending returned another data set")
    g = dump(p)
    wv = None if rm and k[1] == -1 else before["v"]
    eq([g["v"], g["m"], g["t"], g["w"]], [wv, wm, before["t"], before["w"]], "data after making dummies of %s (append %s, remove %s)" % (c["k"], app, c["rm"]))
    gc = [x.replace("-nan", "nan") for x in g["n"]["c"]]
    while gc and gc[-1] == "":
        gc = gc[:-1]
    while wn and wn[-1] == "":
        wn = wn[:-1]
    eq(gc, wn, "column names after making dummies")
    eq([g["n"]["r"], g["n"]["t"], g["n"]["title"]], [before["n"]["r"], before["n"]["t"], before["n"]["title"]], "other names after making dummies")
    if not rm:
        pg = L.ppic_sh_factor_names(p, k[1], k[0])
        check(pg is not None, "no page of categories")
        check_page(pg, k, u, catname(d, k))
    else:
        check(g["more"] is not None, "no page of categories")
    free(p)
    return (["nt"] if 1 < len(u) and len(set(codes)) < len(codes) else []) + ["append " + app] + (["removed"] if rm else [])


@st.composite
def uni(draw):
    return {"t": draw(st.lists(st.tuples(word, word).map(list), min_size=1, max_size=12)), "col": draw(st.integers(0, 2)), "v": draw(st.lists(num, min_size=1, max_size=12)),
            "s": draw(st.booleans())}


def run_unique(c):
    p = mk({"t": c["t"]})
    L.i_sh_quiet()
    o = L.ppi_sh_uniq_text(p, c["col"])
    g = dump(o)
    if c["col"] > 1:
        check(g is None or g["err"], "no error for a text column that isn't there")
    else:
        eq([r[0] for r in g["t"]], uniq_t([r[c["col"]] for r in c["t"]]), "unique texts")
    v = L.piP_sh_vec_strided(len(c["v"]), c["v"]) if c["s"] else vec(c["v"])
    eq(dvec(L.pp_sh_uniq_vec(v)), uniq_n(c["v"]), "unique numbers of %s" % c["v"])
    eq(dvec(v), c["v"], "input vector")
    free(p)
    return ["nt"] if len(set(map(str, c["v"]))) < len(c["v"]) else []


FACETS = [Facet("factors", lambda t: fac(), run_factors, quick=3500),
          Facet("dummies", lambda t: dum(), run_dummies, quick=5000),
          Facet("unique", lambda t: uni(), run_unique, quick=1500),
          Facet("large factors", lambda t: G.large(fac), run_factors, quick=60), Facet("large dummies", lambda t: G.large(dum), run_dummies, quick=60)]
