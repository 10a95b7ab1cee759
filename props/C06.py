"""Pages, and packing a data set into a vector."""
import math
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Histories of up to 9 page operations (add with and without title, get by case-insensitive, exact and pattern match, remove and keep or free) over titles with "
        "clashes, brackets and pattern characters; and data sets of up to four pages of every mix of vector, matrix, weights, text and bracketed titles, packed with every "
        "combination of options and unpacked into a set of the same shape. Non-trivial: two pages could match a request, or more than one page was packed. Distinct by the whole case.")
ASSUMPTIONS = ["pattern matching is that of the platform's extended regular expressions, ignoring case"]
TITLES = ["<Info>", "<info>", "<Covariance>", "pages", "PAGES", "Page", "a.b", "axb", "", "x", "<x", "x>", "<>"]
title = st.sampled_from(TITLES)


@st.composite
def ops(draw):
    op = st.one_of(
        st.tuples(st.just("add"), title, st.integers(0, 1)), st.tuples(st.just("add"), title, st.integers(0, 1)), st.tuples(st.just("addplain"), st.just(""), st.just(0)),
        st.tuples(st.just("get"), title, st.sampled_from(["", "c", "e", "r", "q"])), st.tuples(st.just("get"), title, st.sampled_from(["c", "e", "r"])),
        st.tuples(st.just("rm"), title, st.sampled_from(["", "y", "n"])), st.tuples(st.just("rm"), title, st.sampled_from(["y", "n"])), st.tuples(st.just("default"), st.just(""), st.integers(0, 1)))
    return {"head": draw(st.one_of(st.none(), title)), "ops": [list(x) for x in draw(st.lists(op, min_size=2, max_size=9))]}


def rx(s, p):
    r = J(L.sssi_sh_libc_regex(s, p, 1))
    return r is not None and bool(r["m"])


def run_ops(c):
    head = mk({"v": [0.0], "title": c["head"]})
    pages = [[c["head"], 0.0]]
    n = 0
    lab = set()
    for k, t, a in c["ops"]:
        n += 1
        if k == "add":
            q = mk({"v": [float(n)], "title": t if a else None})
            r = L.ppps_apop_data_add_page(head, q, None if a else t)
            check(r == q, "adding a page returned another one")
            pages.append([t, float(n)])
        elif k == "addplain":
            q = mk({"v": [float(n)]})
            check(L.ppps_apop_data_add_page(head, q, None) == q, "adding a page returned another one")
            check(L.ppps_apop_data_add_page(head, None, "x") is None, "adding a missing page returned something")
            check(L.ppps_apop_data_add_page(None, q, None) == q, "adding a page to nothing must return the page")
            pages.append([None, float(n)])
        elif k in ("get", "default"):
            if k == "default":
                t, a = "<Info>", ""
                q = L.ppsc_sh_get_page(head, t, "")
            elif a == "q":
                check(L.ppsc_sh_get_page(head, t, "q") is None, "an unknown way of matching found something")
                continue
            else:
                q = L.ppsc_sh_get_page(head, t, a)
            a = a or "c"
            hit = [x for x in pages if x[0] is not None and (lo(x[0]) == lo(t) if a == "c" else x[0] == t if a == "e" else rx(x[0], t))]
            if len(hit) > 1:
                lab.add("nt")
            g = dump(q, 0)
            eq([g["n"]["title"], g["v"][0]] if g else None, hit[0] if hit else None, "page %r by %r of %s" % (t, a, pages))
        else:
            hit = [i for i in range(1, len(pages)) if pages[i][0] is not None and lo(pages[i][0]) == lo(t)]
            if len(hit) > 1:
                lab.add("nt")
            q = L.ppsc_sh_rm_page(head, t, a)
            if a == "n" and hit:
                g = dump(q)
                check(g is not None, "the removed page was not returned")
                eq([g["n"]["title"], g["v"][0], g["more"]], pages[hit[0]] + [None], "removed page")
                free(q)
            else:
                check(q is None, "removing %s returned a page", t)
            if hit:
                del pages[hit[0]]
        got = [[x["n"]["title"], x["v"][0]] for x in nodes(dump(head))]
        eq(got, pages, "pages")
    free(head)
    return list(lab)


@st.composite
def packs(draw):
    ds = []
    n = draw(st.integers(1, 4))
    for i in range(n):
        d = draw(G.data(rows=(1, 3), cols=(0, 3), text=(0, 1), names=False, e=G.anynum))
        if draw(st.integers(0, 8)) == 0:
            d = {"t": [["words"]]}
        t = draw(st.one_of(st.none(), title))
        if i == 0 and draw(st.integers(0, 3)):
            t = draw(st.sampled_from([None, "data"]))
        if t is not None:
            d["title"] = t
        ds.append(d)
    for a, b in zip(ds, ds[1:]):
        a["more"] = b
    return {"d": ds[0], "more": draw(st.sampled_from("yyn")), "info": draw(st.sampled_from("nny")), "out": draw(st.sampled_from(["no", "no", "right", "wrong"])),
            "def": draw(st.integers(0, 5)) == 0}


def run_packs(c):
    a = mk(c["d"])
    A = dump(a)
    more, info = (c["more"], c["info"]) if not c["def"] else ("y", "n")
    ps = list(nodes(A))
    isinfo = lambda x: x["n"]["title"] is not None and x["n"]["title"].startswith("<") and x["n"]["title"].endswith(">") and len(x["n"]["title"]) > 1
    use = [p for p in (ps if more == "y" else ps[:1]) if info == "y" or not isinfo(p)]
    want = [x for p in use for x in (p["v"] or []) + [y for r in p["m"] or [] for y in r] + (p["w"] or [])]
    out = None
    if c["out"] != "no" and not c["def"]:
        n = len(want) + (1 if c["out"] == "wrong" else 0)
        if n:
            out = vec([4321.0] * n)
    v = L.pp_sh_pack0(a) if c["def"] else L.pppcc_sh_pack(a, out, more, info)
    eq(dump(a), A, "data set after packing")
    if c["out"] == "wrong" and not c["def"]:
        check(v is None, "packing into a vector of the wrong size succeeded")
        eq(dvec(out), [4321.0] * len(dvec(out)), "vector of the wrong size")
        free(a)
        return ["refused"]
    if not want:
        check(v is None, "nothing to pack, yet a vector was returned")
        free(a)
        return ["nothing"]
    eq(dvec(v), want, "packed vector")
    if out:
        check(v == out, "packing into a vector returned another")

    def other(d):
        if d is None:
            return None
        d = dict(d)
        for k in "vw":
            if d.get(k):
                d[k] = [-99.0] * len(d[k])
        if d.get("m"):
            d["m"] = [[-98.0] * len(r) for r in d["m"]]
        d["more"] = other(d.get("more"))
        return d
    b = mk(other(c["d"]))
    B = dump(b)
    if c["def"]:
        L.vpp_sh_unpack0(v, b)
    else:
        L.vppc_sh_unpack(v, b, info)
    for i, (g, orig, old) in enumerate(zip(nodes(dump(b)), ps, nodes(B))):
        src = orig if any(orig is x for x in use) else old
        eq([g[k] for k in "vmwt"] + [g["n"]], [src[k] for k in "vmwt"] + [src["n"]], "page %d after unpacking" % i)
    eq(dvec(v), want, "packed vector after unpacking")
    free(a), free(b)
    L.vp_sh_vector_free(v)
    return ["nt"] if len(use) > 1 else []


FACETS = [Facet("pages", lambda t: ops(), run_ops, quick=4000),
          Facet("pack", lambda t: packs(), run_packs, quick=5000),
          Facet("large pack", lambda t: G.large(packs), run_packs, quick=80)]
