"""Map and apply: every intended item once, results in their places, any number of threads."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Data sets of up to three pages with matrices to 9 by 9, vectors of the same or another length, weights, text and names; all twelve forms of function, every part (also given wrongly), results new, in place or none, "
        "functions that also change what they are given; the older map/apply functions; 1 to 8 threads. Some elements missing or infinite. Every call is logged. Non-trivial: at least four calls and two threads. Distinct by the whole case.")
ASSUMPTIONS = ["the index given for a matrix element is its row for the whole matrix or its column for the whole matrix", "row functions in place are not given a data set with a vector", "calls may come in any order"]

num = st.integers(-8, 8).map(float)
odd = st.integers(-8, 60).map(lambda i: float(i) if i <= 8 else float("nan") if i > 57 else float("inf") if i == 57 else float(i % 8))


def srt(rows):
    """sorted, missing values last"""
    return sorted(rows, key=lambda t: [(x != x, 0 if x != x else x) for x in (t if isinstance(t, list) else [t])])


IDX = 1048576.0


@st.composite
def page(draw, rag):
    num = draw(st.sampled_from([globals()["num"], odd]))
    r, c = draw(G.size(1, 9, 30)), draw(G.size(0, 9, 4))
    d = {}
    if c:
        d["m"] = draw(G.matrix(r, c, num))
        if draw(st.booleans()):
            d["cn"] = ["c%d" % i for i in range(c)]
    if not c or draw(st.integers(0, 2)) == 0:
        n = draw(G.size(1, 12, 30)) if rag and c else r
        d["v"] = draw(G.vector(n, num))
        if draw(st.booleans()):
            d["vn"] = "vv"
    if draw(st.integers(0, 2)) == 0 and not rag:
        d["w"] = draw(G.vector(r, st.integers(0, 4).map(float)))
    if draw(st.integers(0, 2)) == 0 and not rag:
        k = draw(st.integers(1, 2))
        d["t"] = draw(G.matrix(r, k, st.sampled_from(["", "a", "bc", "%s"])))
        if draw(st.booleans()):
            d["tn"] = ["t%d" % i for i in range(k)]
        if draw(st.integers(0, 4)) == 0:
            d.pop("m", None), d.pop("v", None), d.pop("cn", None), d.pop("vn", None), d.pop("w", None)
    if draw(st.integers(0, 1)) and not rag:
        d["rn"] = ["r" * (i % 3) + "x" for i in range(r)]
    if draw(st.integers(0, 3)) == 0:
        d["title"] = "ti"
    return d


FORMS = ["d", "dp", "dpi", "di", "v", "vp", "vpi", "vi", "r", "rp", "rpi", "ri"]


@st.composite
def case(draw):
    form = draw(st.sampled_from(FORMS))
    rag = form[0] != "r" and draw(st.integers(0, 2)) == 0
    pages = [draw(page(rag)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    part = draw(st.sampled_from({"d": ["", "a", "v", "m", "a", "m", "r", "c"], "v": ["", "r", "c", "c"], "r": ["", "a"]}[form[0]]))
    inp = draw(st.sampled_from(["", "n", "y", "v"]))
    if form[0] == "r" and inp == "y":
        for p in pages:
            p.pop("v", None), p.pop("vn", None)
            if not p.get("m") and not p.get("t"):
                p.clear()
                p["m"] = [[1.0]]
    d = None
    for p in reversed(pages):
        if d:
            p["more"] = d
        d = p
    return {"d": d, "form": form, "part": part, "inp": inp, "pages": draw(st.sampled_from(["", "n", "y", "y", "Y"])), "th": draw(st.integers(1, 8)), "mod": draw(st.booleans()), "par": float(draw(st.integers(0, 3)))}


def textlen(s):
    return len(s)


def items(d, form, part):
    """[(part, position, value given to the function)] or 'p'"""
    if form[0] == "d":
        part = part or "a"
        if part in "rc":
            return "p"
        out = []
        if part in "va" and d.get("v"):
            out += [("v", i, x) for i, x in enumerate(d["v"])]
        if part in "ma" and d.get("m"):
            out += [("m", (i, j), x) for i, r in enumerate(d["m"]) for j, x in enumerate(r)]
        return out
    if form[0] == "v":
        m = d.get("m")
        if not m:
            return "p"
        if (part or "r") == "c":
            m = list(zip(*m))
        return [("r", i, len(r) + sum((j + 1) * 64 * x for j, x in enumerate(r))) for i, r in enumerate(m)]
    n = max(len(d.get("v") or []), len(d.get("m") or []), len(d.get("t") or []))
    out = []
    for i in range(n):
        x = 0.0
        if d.get("v"):
            x += d["v"][i] * 2
        if d.get("m"):
            x += sum((j + 2) * 64 * y for j, y in enumerate(d["m"][i]))
        if d.get("w"):
            x += d["w"][i] * 16384
        if d.get("t"):
            x += sum((j + 1) * 4096 * len(s) for j, s in enumerate(d["t"][i]))
        if d.get("rn"):
            x += 0.25 * (1 + len(d["rn"][i]))
        out.append(("w", i, x))
    return out


def fval(x, c, i):
    return 2 * x + 1 + (1000 * c["par"] if "p" in c["form"] else 0) + (IDX * (i + 1) if "i" in c["form"] else 0)


def run_map(c):
    p = mk(c["d"])
    before = dump(p, 9)
    L.vidi_sh_map_setup(c["th"], c["par"], int(c["mod"]))
    allp = c["pages"] in ("y", "Y")
    pages = [x for k, x in enumerate(nodes(c["d"])) if k == 0 or allp]
    its = [items(d, c["form"], c["part"]) for d in pages]
    cut = lambda s: s or "\0"
    r = L.ppsccc_sh_map(p, c["form"], cut(c["inp"]), cut(c["part"]), cut(c["pages"]))
    log = J(L.s_sh_map_log())
    ncalls = 0
    # calls
    want = []
    stop = False
    for it in its:
        if it == "p":
            break
        for kind, pos, x in it:
            i = -1 if "i" not in c["form"] else pos if kind != "m" else None
            want.append((x, i, 1 if "p" in c["form"] else -1))
    if any(w[1] is None for w in want):
        eq(srt([x, q] for x, i, q in log), srt([x, q] for x, i, q in want), "values the function was called with")
    else:
        eq(srt([x, i, q] for x, i, q in log), srt([x, i, q] for x, i, q in want), "values and indices the function was called with")
    # the input
    after = dump(p, 9)
    exp = dump(p, 9) if False else before
    exp = json.loads(json.dumps(before))
    got_after = after
    res = dump(r, 9) if r else None
    if c["mod"] and c["form"][0] in "vr":
        for k, e in enumerate(nodes(exp)):
            if (k == 0 or allp) and "p" not in its[:k + 1]:
                if e["m"]:
                    e["m"] = [[x + 3 for x in row] for row in e["m"]]
                if e["w"] and c["form"][0] == "r":
                    e["w"] = [x + 5 for x in e["w"]]
    err = any(i == "p" for i in its)
    if c["inp"] != "y":
        eq(got_after, exp, "the input afterwards")
    if c["inp"] == "v":
        if not err:
            eq(res, None, "result of a map with no result")
        return labels(c, want)
    if err:
        check(res is not None and res["err"] == "p", "error flag: %s", res and res["err"])
        return ["err"]
    if c["inp"] == "y":
        eq(r, p, "address of the result in place")
    outs = list(nodes(res))
    eq(len(outs), len(list(nodes(before))) if c["inp"] == "y" else len(pages), "number of pages of the result")
    for k, (o, it) in enumerate(zip(outs, its)):
        e = list(nodes(exp))[k]
        d = pages[k]
        part = c["part"] or ("r" if c["form"][0] == "v" else "a")
        V = [x for kind, pos, x in it if kind == "v"]
        M = [(pos, x) for kind, pos, x in it if kind == "m"]
        R = [(pos, x) for kind, pos, x in it if kind in "rw"]
        wv = [fval(x, c, i) for i, x in enumerate(V)] or None
        wm = [None]
        if M:
            shape = len(d["m"]), len(d["m"][0])
            wm = []
            for ax in (0, 1):
                g = [[0.0] * shape[1] for _ in range(shape[0])]
                for pos, x in M:
                    g[pos[0]][pos[1]] = fval(x, c, pos[ax])
                wm.append(g)
        if c["form"][0] == "d":
            if c["inp"] == "y":
                wv = wv or e["v"]
                wm = wm if M else [e["m"]]
            eq(o["v"], wv, "vector of the result, page %d" % k)
            check(any(same(o["m"], g) for g in wm), "matrix of the result, page " + str(k) + ": got %s, expected %s", o["m"], wm[0])
        elif c["form"][0] == "v" or c["inp"] != "y":
            eq(o["v"], [fval(x, c, i) for i, x in R], "vector of the result, page %d" % k)
            if c["inp"] == "y":
                eq(o["m"], e["m"], "matrix in place, page %d" % k)
            else:
                eq(o["m"], None, "matrix of the result")
        if c["inp"] == "y":
            for key in ("t", "w", "n", "err", "ts") + (("m", "v") if c["form"][0] == "r" else ()):
                eq(o[key], e[key], "%s in place, page %d" % (key, k))
        else:
            n, f = o["n"], e["n"]
            if c["form"][0] == "d" and part == "a":
                eq([n[x] for x in "rc"], [f[x] for x in "rc"], "names, page %d" % k)
                eq(n["v"], f["v"], "vector name") if o["v"] else None
            elif c["form"][0] == "d" and part == "m" and M:
                eq([n[x] for x in "rc"], [f[x] for x in "rc"], "names, page %d" % k)
            elif c["form"][0] == "d" and V:
                eq([n[x] for x in "rv"], [f[x] for x in "rv"], "names, page %d" % k)
            elif part == "c":
                eq(n["r"], f["c"], "row names of a map over columns, page %d" % k)
            elif R:
                eq(n["r"], f["r"], "row names, page %d" % k)
    # and its sum
    if c["inp"] != "y" and not (c["mod"] and c["form"][0] in "vr"):
        s = L.dpscc_sh_map_sum(p, c["form"], cut(c["part"]), cut(c["pages"]))
        log2 = J(L.s_sh_map_log())
        eq(srt(log2), srt(log), "calls made by the sum")
        eq(s, sum(sum(o["v"] or []) + sum(sum(r) for r in o["m"] or []) for o in outs), "sum")
        eq(dump(p, 9), exp, "input after the sum")
    return labels(c, want)


def labels(c, want):
    return (["nt"] if len(want) >= 4 and c["th"] > 1 else []) + ["form " + c["form"][0]]


@st.composite
def old(draw):
    num = draw(st.sampled_from([globals()["num"], odd]))
    return {"m": draw(G.matrix(draw(st.integers(1, 9)), draw(st.integers(1, 9)), num)) if draw(st.integers(0, 9)) else None, "v": draw(G.vector(draw(st.integers(1, 20)), num)) if draw(st.integers(0, 9)) else None,
            "th": draw(st.integers(1, 8)), "strided": draw(st.booleans())}


def run_old(c):
    m, v = c["m"], c["v"]
    L.vidi_sh_map_setup(c["th"], 0.0, 0)
    M = mat(m)
    V = (L.piP_sh_vec_strided(len(v), v) if c["strided"] else vec(v)) if v else None
    rows = [len(r) + sum((j + 1) * 64 * x for j, x in enumerate(r)) for r in m or []]
    cells = [x for r in m or [] for x in r]
    lg = lambda: srt(x for x, i, p in J(L.s_sh_map_log()))
    f = lambda x: 2 * x + 1

    def calls(w, what):
        eq(lg(), srt(w), "calls of " + what)
    eq(dvec(L.pp_sh_omap_mv(M)), [f(x) for x in rows] if m else None, "apop_matrix_map")
    calls(rows, "apop_matrix_map")
    eq(dmat(L.pp_sh_omap_mall(M)), [[f(x) for x in r] for r in m] if m else None, "apop_matrix_map_all")
    calls(cells, "apop_matrix_map_all")
    eq(dvec(L.pp_sh_omap_vv(V)), [f(x) for x in v] if v else None, "apop_vector_map")
    calls(v or [], "apop_vector_map")
    for k, w in (("v", v or []), ("a", cells), ("r", rows)):
        eq(L.dcpp_sh_osum(k, M, V), float(sum(f(x) for x in w)), "sum " + k)
        calls(w, "sum " + k)
    eq(dmat(M), m, "the matrix afterwards")
    eq(dvec(V), v, "the vector afterwards")
    L.vp_sh_oapply_v(V)
    calls(v or [], "apop_vector_apply")
    eq(dvec(V), [f(x) for x in v] if v else None, "vector after apop_vector_apply")
    L.vp_sh_oapply_mall(M)
    calls(cells, "apop_matrix_apply_all")
    m2 = [[f(x) for x in r] for r in m] if m else None
    eq(dmat(M), m2, "matrix after apop_matrix_apply_all")
    L.vp_sh_oapply_m(M)
    calls([len(r) + sum((j + 1) * 64 * x for j, x in enumerate(r)) for r in m2 or []], "apop_matrix_apply")
    eq(dmat(M), [[f(x) for x in r] for r in m2] if m else None, "matrix after apop_matrix_apply")
    return ["nt"] if m and c["th"] > 1 and len(m) > 1 else []


FACETS = [Facet("map", lambda t: case(), run_map, quick=8000, threads=8), Facet("large map", lambda t: G.large(case), run_map, quick=160, threads=8), Facet("older", lambda t: old(), run_old, quick=1500, threads=8)]
