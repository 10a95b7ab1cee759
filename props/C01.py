"""Elements: reading and writing data-set elements by number, by name and by page."""
import sys, os
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("A data set (vector and/or matrix, names, up to two further pages) and a history of up to 12 reads, writes, pointer "
        "look-ups and named-element appends, with indices inside and outside the bounds and names present, differing in case, and "
        "absent; a Python model is compared in full after every step; sets allocated and filled from a list of numbers in one call. Non-trivial: at least one write took effect through a name, a "
        "page or the vector column, or at least one access was out of bounds or to a missing name. Distinct by the whole case.")
ASSUMPTIONS = ["names compare as strcasecmp does in the C locale", "single-threaded use"]


def find(names, want):
    """position in a list: exact match preferred, else case-insensitive; None if absent"""
    for i, n in enumerate(names or []):
        if n == want:
            return i
    for i, n in enumerate(names or []):
        if lo(n) == lo(want):
            return i
    return None


class Page:
    def __init__(self, d):
        self.v, self.m = list(d["v"]) if d.get("v") else None, [list(r) for r in d["m"]] if d.get("m") else None
        self.rn, self.cn, self.vn, self.title = list(d.get("rn") or []), list(d.get("cn") or []), d.get("vn"), d.get("title")

    def cell(self, row, col):
        """the container and index for (row, col), or None when out of bounds"""
        if col == -1 or (col == 0 and self.m is None and self.v is not None):
            if self.v is None or not 0 <= row < len(self.v):
                return None
            return self.v, row
        if self.m is None or not (0 <= row < len(self.m) and 0 <= col < len(self.m[0])):
            return None
        return self.m[row], col


def resolve(pages, op):
    p = pages[0]
    row, col = op.get("row", 0), op.get("col", 0)
    if op.get("page") is not None:
        hits = [x for x in pages if x.title is not None and lo(x.title) == lo(op["page"])]
        if not hits:
            return None
        p = hits[0]
    if op.get("rn") is not None:
        row = find(p.rn, op["rn"])
        if row is None:
            return None
    if op.get("cn") is not None:
        col = find(p.cn, op["cn"])
        if col is None:
            if p.vn is not None and lo(p.vn) == lo(op["cn"]):
                col = -1
            else:
                return None
    return p.cell(row, col)


@st.composite
def ops(draw, r, c, rns, cns, pgs):
    k = draw(st.sampled_from(["set", "set", "get", "get", "ptr", "short", "elmt"]))
    rname = st.sampled_from(rns) if rns and draw(st.integers(0, 4)) else G.name
    cname = st.sampled_from(cns) if cns and draw(st.integers(0, 4)) else G.name
    if k == "elmt":
        return {"op": k, "rn": draw(rname), "val": draw(G.real)}
    o = {"op": k, "row": draw(st.integers(0, r - 1)), "col": draw(st.integers(-1, max(c - 1, 0))), "val": draw(G.anynum)}
    if draw(st.integers(0, 5)) == 0:
        o["row"] = draw(st.sampled_from([-2, -1, r, r + 1, r + 7]))
    if draw(st.integers(0, 5)) == 0:
        o["col"] = draw(st.sampled_from([-2, c, c + 1]))
    if k == "short":
        o["form"] = draw(st.sampled_from(["row", "rowcol", "rn", "cn", "setrow", "setcn"]))
        if o["form"] == "rn":
            o["rn"], o["row"] = draw(rname), 0
            o["col"] = 0
        elif o["form"] in ("cn", "setcn"):
            o["cn"] = draw(cname)
        elif o["form"] in ("row", "setrow"):
            o["col"] = 0
        return o
    if draw(st.integers(0, 2)) == 0:
        o["rn"] = draw(rname)
    if draw(st.integers(0, 2)) == 0:
        o["cn"] = draw(cname)
    if draw(st.integers(0, 3)) == 0:
        o["page"] = draw(st.sampled_from(pgs) if pgs and draw(st.integers(0, 4)) else G.name)
    return o


@st.composite
def history(draw):
    d = draw(G.data(rows=(1, 5), cols=(0, 4), weights=False, text=None, pages=2, e=G.anynum))
    rns, cns, pgs, x = [], [], [], d
    while x:
        rns += x.get("rn", [])
        cns += x.get("cn", []) + ([x["vn"]] if "vn" in x else [])
        pgs += [x["title"]] if "title" in x else []
        x = x.get("more")
    r = len(d.get("m") or d.get("v"))
    c = len(d["m"][0]) if "m" in d else 0
    flip = lambda l: l + [swapcase(s) for s in l]
    return {"d": d, "ops": draw(st.lists(ops(r, c, flip(rns), flip(cns), flip(pgs)), min_size=1, max_size=12))}


def check_all(p, pages, raw):
    got = dump(p)
    for i, (pg, orig) in enumerate(zip(pages, raw)):
        check(got is not None, "page %s is gone", str(i))
        eq(got["v"], pg.v, "page %d vector" % i)
        eq(got["m"], pg.m, "page %d matrix" % i)
        eq(got["n"]["r"], pg.rn, "page %d row names" % i)
        eq(got["n"]["c"], pg.cn, "page %d column names" % i)
        eq(got["n"]["v"], pg.vn, "page %d vector name" % i)
        eq(got["n"]["title"], pg.title, "page %d title" % i)
        got = got["more"]
    check(got is None, "an extra page appeared")


def run(case):
    raw, d = [], case["d"]
    while d:
        raw.append(d)
        d = d.get("more")
    pages = [Page(x) for x in raw]
    p = mk(case["d"])
    labels = []
    for o in case["ops"]:
        if o["op"] == "elmt":
            L.vpsd_apop_data_add_named_elmt(p, o["rn"], o["val"])
            pg = pages[0]
            pg.rn.append(o["rn"])
            n = len(pg.rn)
            pg.v = pg.v or []
            had = len(pg.v)
            if len(pg.v) < n:
                # cells between the old end and the new element have no defined value
                got = dump(p)["v"]
                check(got is not None and len(got) == n, "vector was not extended to %s: %s", n, got)
                eq(got[:had], pg.v, "vector after append")
                pg.v = got
            pg.v[n - 1] = o["val"]
            labels += ["append"]
        else:
            c = resolve(pages, o)
            a = (o.get("row", 0), o.get("col", 0))
            n = (o.get("rn"), o.get("cn"), o.get("page"))
            if c is None:
                labels += ["missing", "nt"]
            elif any(x is not None for x in n):
                labels += ["by-name"]
            if o["op"] == "get":
                got = L.dpiisss_sh_get(p, *a, *n)
                eq(got, c[0][c[1]] if c else float("nan"), "get %s" % o)
            elif o["op"] == "set":
                r = L.ipiidsss_sh_set(p, *a, o["val"], *n)
                eq(r, 0 if c else -1, "return value of set %s" % o)
                if c:
                    c[0][c[1]] = o["val"]
                    if any(x is not None for x in n) or o["col"] == -1:
                        labels += ["nt"]
            elif o["op"] == "ptr":
                q = L.ppiisss_sh_ptr(p, *a, *n)
                check((q is not None) == (c is not None), "pointer for %s: %s, cell exists: %s", o, str(q), str(c is not None))
                if c:
                    eq(L.dp_sh_deref(q), c[0][c[1]], "through pointer %s" % o)
                    L.vpd_sh_poke(q, o["val"])
                    c[0][c[1]] = o["val"]
            else:
                f = o["form"]
                if f.startswith("set"):
                    r = L.ipid_sh_set_row(p, o["row"], o["val"]) if f == "setrow" else L.ipisd_sh_set_cn(p, o["row"], o["cn"], o["val"])
                    eq(r, 0 if c else -1, "return value of %s" % o)
                    if c:
                        c[0][c[1]] = o["val"]
                else:
                    got = {"row": lambda: L.dpi_sh_get_row(p, o["row"]), "rowcol": lambda: L.dpii_sh_get_rowcol(p, o["row"], o["col"]),
                           "rn": lambda: L.dps_sh_get_rn(p, o["rn"]), "cn": lambda: L.dpis_sh_get_cn(p, o["row"], o["cn"])}[f]()
                    eq(got, c[0][c[1]] if c else float("nan"), "get %s" % o)
        check_all(p, pages, raw)
    free(p)
    return labels


@st.composite
def fill_c(draw):
    n = draw(st.integers(1, 3))
    a, b, c = (draw(st.integers(0, 5)) for _ in range(3))
    if n == 2:
        a, b = (draw(st.integers(1, 5)), draw(st.integers(1, 4))) if draw(st.integers(0, 4)) else (a, 0)
    if n == 3:
        b, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        a = draw(st.sampled_from([0, b, b]))
    vals = draw(st.lists(G.anynum, min_size=20, max_size=20))
    d = draw(G.data(rows=(1, 5), cols=(0, 3), pages=draw(st.integers(0, 1)), e=G.anynum))
    return {"n": n, "sz": [a, b, c], "x": vals, "d": d, "len": draw(st.integers(0, 20))}


def run_fill(c):
    n, (a, b, cc), x = c["n"], c["sz"], c["x"]
    v, m1, m2 = (a, 0, 0) if n == 1 else (0, a, b) if n == 2 and b else (a, 0, 0) if n == 2 else (a, b, cc)
    if m1 * m2 == 0:
        m1 = m2 = 0
    p = L.piiiiP_sh_falloc(n, a, b, cc, x)

    def ref(v, m1, m2):
        it = iter(x)
        V, M = [], []
        for i in range(max(v, m1)):
            if v:
                V.append(next(it))
            if m2:
                M.append([next(it) for _ in range(m2)])
        return V or None, M or None
    D = dump(p)
    eq([D["v"], D["m"]], list(ref(v, m1, m2)), "a data set of %s numbers, %s by %s, allocated and filled" % (v, m1, m2))
    eq([D["w"], D["ts"][0] * D["ts"][1], D["err"]], [None, 0, 0 if isinstance(D["err"], int) else D["err"]], "other parts of a data set allocated and filled")
    free(p)
    # filling leaves names, text, weights and further pages alone
    p = mk(c["d"])
    A = dump(p)
    size = len(A["v"] or []) + sum(len(r) for r in A["m"] or [])
    if size <= 20 and not (A["v"] and A["m"] and len(A["v"]) != len(A["m"])):
        eq(L.ipP_sh_data_fill(p, x), 1, "the data set is handed back")
        A["v"], A["m"] = ref(len(A["v"] or []), len(A["m"] or []), len((A["m"] or [[]])[0]))
        if A["m"] is None and A["v"] is None:
            A["v"], A["m"] = dump(p)["v"], dump(p)["m"]
        eq(dump(p), A, "a data set after filling")
    free(p)
    q = L.pPi_sh_a2v(x, c["len"]) if c["len"] else None
    if q:
        eq(json.loads(L.sp_sh_dump_vec(q)), x[:c["len"]], "vector of an array")
        y = x[::-1]
        eq(L.ipP_sh_vector_fill(q, y), 1, "the vector is handed back")
        eq(json.loads(L.sp_sh_dump_vec(q)), y[:c["len"]], "vector filled")
        L.vp_gsl_vector_free(q)
    return ["nt"] if v * 1 + m1 * m2 > 1 else []


FACETS = [Facet("history", lambda tier: history(), run, quick=9000), Facet("fill", lambda tier: fill_c(), run_fill, quick=1500)]
