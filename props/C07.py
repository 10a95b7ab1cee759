"""Sorting is an ordered permutation of whole rows."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets with any combination of vector, matrix, weights, text, row names and a second page, values drawn from few distinct ones so that ties are common; sorted by default or by a "
        "sort-order row with ranks, ties among ranks, NaN and blank entries, ascending or descending, in place or not. Non-trivial: at least three rows, the input is not already in order and "
        "at least one tie in the first key. Distinct by the whole case.")
ASSUMPTIONS = ["no NaN among the keys sorted on", "row counts of the parts agree", "rows equal in every key may come in any order"]
NAN = float("nan")


@st.composite
def case(draw):
    few = draw(st.sampled_from([st.integers(0, 2).map(float), st.integers(-9, 9).map(float), G.real,
                                st.sampled_from([0.0, 1.0, float("inf"), float("-inf"), 1e-300, 1.0000000001])]))
    wd = draw(st.sampled_from([st.sampled_from(["a", "A", "b", "B", "aa", ""]), G.words, st.text(alphabet="abAB_[", max_size=3)]))
    d = draw(G.data(rows=draw(st.sampled_from([(1, 4), (2, 8), (5, 14)])), cols=(0, 3), text=(0, 2), full_names=draw(st.integers(0, 3)) > 0 or None, e=few,
                    names_s=wd, words_s=wd, pages=draw(st.integers(0, 1))))
    if draw(st.integers(0, 2)) == 0:
        return {"d": d, "o": None, "asc": draw(st.sampled_from(["", "a", "d"])), "in": draw(st.sampled_from(["", "y", "n"]))}
    rank = st.one_of(st.integers(0, 6).map(float), st.sampled_from([-1.5, 2.25, 1.0, 10.0, 9.0]), st.sampled_from([NAN, NAN]))
    trank = st.one_of(st.integers(0, 11).map(str), st.sampled_from(["", "", "NaN", "-2", "2.5", "NaN"]))
    o = {}
    if d.get("v") and draw(st.booleans()):
        o["v"] = [draw(rank)]
    if d.get("m") and draw(st.integers(0, 4)):
        o["m"] = [draw(G.vector(len(d["m"][0]), rank))]
    if d.get("w") and draw(st.booleans()):
        o["w"] = [draw(rank)]
    if d.get("t") and draw(st.integers(0, 4)):
        o["t"] = [draw(G.vector(len(d["t"][0]), trank))]
    if d.get("rn") and draw(st.booleans()):
        o["rn"] = [draw(trank)]
    return {"d": d, "o": o, "asc": draw(st.sampled_from(["a", "d", "D", "A"])), "in": draw(st.sampled_from("yn"))}


def keys(A, o):
    """the sequence of columns, each a list of comparable values"""
    n = len(A["m"] or A["v"] or A["t"])
    cols = []
    col = {"v": lambda j: A["v"], "m": lambda j: [r[j] for r in A["m"]], "t": lambda j: [lo(r[j]) for r in A["t"]],
           "w": lambda j: A["w"], "n": lambda j: [lo(x) for x in A["n"]["r"]]}
    if o is None:
        if A["v"]:
            cols.append(("v", 0))
        cols += [("m", j) for j in range(A["mc"])]
        cols += [("t", j) for j in range(A["ts"][1])]
        if A["w"]:
            cols.append(("w", 0))
        if A["n"]["r"]:
            cols.append(("n", 0))
    else:
        tr = lambda x: NAN if x in ("", "NaN") else float(x)
        r = [(o["v"][0], ("v", 0))] if o.get("v") else []
        r += [(x, ("m", j)) for j, x in enumerate(o["m"][0])] if o.get("m") else []
        r += [(tr(x), ("t", j)) for j, x in enumerate(o["t"][0])] if o.get("t") else []
        r += [(o["w"][0], ("w", 0))] if o.get("w") else []
        r += [(tr(o["rn"][0]), ("n", 0))] if o.get("rn") else []
        cols = [c for x, c in sorted((z for z in r if z[0] == z[0]), key=lambda z: z[0])]
    vals = [col[c](j) for c, j in cols]
    return [tuple(v[i] for v in vals) for i in range(n)]


def rows(A):
    n = len(A["m"] or A["v"] or A["t"])
    return [json.dumps([A[k][i] if A[k] else None for k in "vmwt"] + [A["n"]["r"][i] if A["n"]["r"] else None]) for i in range(n)]


def run(c):
    a, o = mk(c["d"]), mk(c["o"]) if c["o"] is not None else None
    A, O = dump(a), dump(o)
    if c["asc"] and c["in"]:
        r = L.pppcc_sh_sort(a, o, c["asc"], c["in"])
    elif c["asc"]:
        r = L.pppc_sh_sort_asc(a, o, c["asc"])
    elif c["in"]:
        r = L.pppc_sh_sort_in(a, o, c["in"])
    else:
        r = L.pp_sh_sort0(a)
    R = dump(r)
    if c["in"] == "n":
        check(r != a, "asked for a copy, got the input")
        eq(dump(a), A, "input after sorting to a copy")
    else:
        check(r == a, "sorting in place returned another data set")
    eq(dump(o), O, "sort order")
    eq([len(R[k]) if R[k] else 0 for k in "vmwt"] + R["ts"] + [len(R["n"]["r"])], [len(A[k]) if A[k] else 0 for k in "vmwt"] + A["ts"] + [len(A["n"]["r"])], "shape after sorting")
    eq({k: R["n"][k] for k in ("title", "v", "c", "t")}, {k: A["n"][k] for k in ("title", "v", "c", "t")}, "names after sorting")
    eq(R["more"], A["more"], "further pages")
    ra, rr = rows(A), rows(R)
    if sorted(ra) != sorted(rr):
        raise Bad("rows lost, duplicated or mixed: %s -> %s" % (short(ra), short(rr)))
    k0, k1 = keys(A, c["o"]), keys(R, c["o"])
    down = c["asc"] in ("d", "D")
    want = sorted(k0, reverse=down)
    if k1 != want:
        raise Bad("order of keys: got %s, expected %s" % (short(k1), short(want)))
    # names found where they now are
    n = L.pp_sh_names(r)
    low = [lo(x) for x in R["n"]["r"]]
    for x in set(R["n"]["r"]):
        eq(L.ipsc_apop_name_find(n, x, "r"), R["n"]["r"].index(x), "position of row name %r after sorting" % x)
    if c["in"] == "n":
        # in place gives what the copy gives, up to rows equal in every key
        b = mk(c["d"])
        L.pppcc_sh_sort(b, o, c["asc"] or "a", "y")
        eq(keys(dump(b), c["o"]), k1, "order in place and in a copy")
        free(b), free(r)
    free(a), free(o)
    first = [k[0] for k in k0 if k]
    return ["nt"] if len(k0) >= 3 and k0 != want and len(set(first)) < len(first) else []


FACETS = [Facet("sort", lambda t: case(), run, quick=12000), Facet("large sort", lambda t: G.large(case), run, quick=120)]
