"""Removing rows or columns keeps exactly the survivors."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets with any combination of vector, matrix, weights, text, names and pages, and every kind of drop pattern (none, all, first, last, random) given as a list, "
        "a predicate, or both; columns dropped by list or by the names to keep; rows with missing values (NaN in numbers, the missing marker in text) deleted in place or not. "
        "Non-trivial: something is dropped and something survives. Distinct by the whole case.")
ASSUMPTIONS = ["row counts of the parts agree", "row and column names are complete or absent"]
NAN = float("nan")


@st.composite
def pattern(draw, n):
    k = draw(st.sampled_from(["rand", "rand", "rand", "none", "all", "first", "last", "keepone"]))
    if k == "rand":
        return draw(G.vector(n, st.sampled_from([0, 0, 1, 1, 7])))
    x = [int(k in ("all", "keepone"))] * n
    if k in ("first", "last", "keepone"):
        i = 0 if k == "first" else n - 1 if k == "last" else draw(st.integers(0, n - 1))
        x[i] = 1 - x[i]
    return x


full = lambda **kw: G.data(rows=(1, 7), cols=(0, 4), full_names=True, **kw)


@st.composite
def rows_case(draw):
    d = draw(full(names=draw(st.booleans()), e=G.small, pages=1))
    n = len(d.get("m") or d.get("v") or d.get("t"))
    how = draw(st.sampled_from(["list", "list", "fn", "both"]))
    return {"d": d, "drop": draw(pattern(n)), "how": how, "t": draw(st.integers(-9, 9)) + 0.5}


def filt(A, keep):
    out = {k: ([x for x, y in zip(A[k], keep) if y] or None) if A[k] else None for k in "vmwt"}
    names = dict(A["n"], r=[x for x, y in zip(A["n"]["r"], keep) if y])
    return out, names


def compare(g, A, keep, what):
    want, names = filt(A, keep)
    g = strip(g)
    eq({k: g[k] for k in "vmwt"}, want, "data after " + what)
    eq(g["n"], names, "names after " + what)
    eq(g["more"], strip(A["more"]), "further pages after " + what)


def run_rows(c):
    a = mk(c["d"])
    A = dump(a)
    n = len(c["drop"])
    drop = list(map(bool, c["drop"])) if c["how"] != "fn" else [False] * n
    if c["how"] != "list":
        for i in range(n):
            x = A["v"][i] if A["v"] else A["m"][i][0] if A["m"] else -1e9
            drop[i] = drop[i] or x > c["t"] or bool(A["t"] and A["t"][i][0] == "")
    if c["how"] == "list":
        r = L.ppI_sh_rm_rows(a, c["drop"])
    else:
        r = L.ppId_sh_rm_rows_fn(a, c["drop"] if c["how"] == "both" else None, c["t"])
    check(r == a, "dropping rows returned another data set")
    keep = [not x for x in drop]
    compare(dump(a), A, keep, "dropping rows")
    # what is left is a working data set
    b = L.pp_apop_data_copy(a)
    compare(dump(b), A, keep, "dropping rows and copying")
    if any(keep):
        s = L.pppcc_sh_stack(a, b, "r", "n")
        want, _ = filt(A, keep)
        g = dump(s)
        eq({k: g[k] for k in "vmw"}, {k: want[k] * 2 if want[k] else None for k in "vmw"}, "stack of what was left")
        free(s)
    free(a), free(b)
    return (["nt"] if any(drop) and any(keep) else []) + (["all"] if not any(keep) else [])


@st.composite
def cols_case(draw):
    c = draw(G.size(1, 6, 6))
    d = draw(G.data(rows=(1, 4), cols=(c, c), names=draw(st.integers(0, 4)) > 0, full_names=True, e=G.anynum, pages=1))
    how = draw(st.sampled_from(["list", "prune"])) if "cn" in d else "list"
    case = {"d": d, "how": how}
    if how == "list":
        case["drop"] = draw(pattern(c))
    else:
        pool = d["cn"] + [swapcase(x) for x in d["cn"]]
        case["keep"] = draw(st.lists(st.one_of(st.sampled_from(pool), st.sampled_from(pool), G.name), min_size=0, max_size=c))
    return case


def run_cols(c):
    a = mk(c["d"])
    A = dump(a)
    n = len(A["m"][0])
    if c["how"] == "list":
        drop = [bool(x) for x in c["drop"]]
        L.vpI_apop_data_rm_columns(a, c["drop"])
    else:
        drop, left = [], list(c["keep"])
        for x in A["n"]["c"]:
            hit = next((y for y in left if lo(y) == lo(x)), None)
            if hit is not None:
                left.remove(hit)
            drop.append(hit is None)
        arr = (C.c_char_p * (len(c["keep"]) + 1))(*[enc(x) for x in c["keep"]], None)
        r = L.ppp_apop_data_prune_columns_base(a, C.addressof(arr))
        check(r == a, "pruning returned another data set")
    g = dump(a)
    eq(g["m"], None if all(drop) else [[x for x, y in zip(r, drop) if not y] for r in A["m"]], "matrix after dropping columns")
    cn = [x for x, y in zip(A["n"]["c"], drop) if not y]
    eq(g["n"], dict(A["n"], c=cn), "names after dropping columns")
    for k in ("v", "w", "t", "more"):
        eq(g[k], A[k], "%s after dropping columns" % k)
    free(L.pp_apop_data_copy(a))
    free(a)
    return ["nt"] if any(drop) and not all(drop) else []


@st.composite
def missing(draw):
    some = st.one_of(*[G.small] * 8, st.sampled_from([NAN, NAN, float("inf")]))
    marker = draw(st.sampled_from(["NaN", "NaN", "missing", "."]))
    ok = st.sampled_from(["a", "b", "nannan", "", "7", "NaNb"])
    w = st.one_of(ok, ok, ok, ok, ok, st.sampled_from([marker, swapcase(marker)]))
    d = draw(full(names=draw(st.booleans()), e=some if draw(st.booleans()) else st.one_of(some, G.small, G.small, G.small), words_s=w, pages=1))
    if d.get("w") and draw(st.integers(0, 2)) == 0:
        d["w"][draw(st.integers(0, len(d["w"]) - 1))] = NAN
    return {"d": d, "in": draw(st.sampled_from("ny")), "marker": marker}


def run_missing(c):
    if c["marker"] != "NaN":
        L.vs_sh_opts_nan_string(c["marker"])
    a = mk(c["d"])
    A = dump(a)
    rows = len(A["m"] or A["v"] or A["t"])
    bad = [False] * rows
    for i in range(rows):
        bad[i] = bool((A["v"] and A["v"][i] != A["v"][i]) or (A["m"] and any(x != x for x in A["m"][i])) or (A["w"] and A["w"][i] != A["w"][i])
                      or (A["t"] and any(lo(x) == lo(c["marker"]) for x in A["t"][i])))
    keep = [not x for x in bad]
    r = L.ppc_sh_listwise(a, c["in"])
    if not any(keep):
        check(r is None, "every row is incomplete, yet a data set was returned")
        if c["in"] == "n":
            eq(dump(a), A, "input")
        else:
            compare(dump(a), A, keep, "listwise deletion of everything")
        free(a)
        return ["all"]
    if c["in"] == "n":
        check(r != a, "not in place, yet the input was returned")
        eq(dump(a), A, "input after listwise deletion")
    else:
        check(r == a, "in place, yet another set was returned")
    compare(dump(r), A, keep, "listwise deletion")
    if r != a:
        free(r)
    free(a)
    return ["nt"] if any(bad) else []


FACETS = [Facet("rows", lambda t: rows_case(), run_rows, quick=4500),
          Facet("cols", lambda t: cols_case(), run_cols, quick=3000),
          Facet("listwise", lambda t: missing(), run_missing, quick=4500)] + [Facet("large " + n, lambda t, s=s: G.large(s), r, quick=80)
                                                                                 for n, s, r in (("rows", rows_case, run_rows), ("cols", cols_case, run_cols), ("listwise", missing, run_missing))]
