"""Text grids and string tools."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Histories of resizing, writing (verbatim, formatted, missing), filling, copying and reading a text grid of up to 6x6, with writes outside it; joins of grids with every separator and "
        "pruning rule; unique elements of columns and vectors with many repeats, and infinities; regular expressions built from a grammar (groups, alternation, repetition, classes, escapes, anchors) "
        "applied to short strings, compared with regcomp/regexec. Non-trivial: histories with at least two resizes and three writes; joins of at least two rows and columns; at least one repeated element; "
        "at least one match with a group. Distinct by the whole case.")
ASSUMPTIONS = ["after an empty match POSIX does not say where to search on: rows after it are not compared", "a string written to a cell is not that cell's own string (documented)"]

# ------------------------------------------------------------------ the grid as a table of strings
sz = st.integers(1, 6)


@st.composite
def ops(draw):
    out = [["alloc", draw(sz), draw(sz)]]
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["alloc", "alloc", "set", "set", "set", "setf", "null", "fill", "copy", "zero", "fillall"]))
        if k == "alloc":
            out.append([k, draw(sz), draw(sz)])
        elif k == "zero":
            if draw(st.integers(0, 3)) == 0:
                out.append([k])
        elif k in ("set", "null"):
            out.append([k, draw(st.integers(-1, 6)), draw(st.integers(-1, 6)), draw(G.words)])
        elif k == "setf":
            out.append([k, draw(st.integers(0, 6)), draw(st.integers(0, 6)), draw(G.words), draw(st.integers(-99, 99)), draw(G.small)])
        elif k == "fill":
            out.append([k, draw(st.lists(G.words, min_size=0, max_size=12))])
        elif k == "fillall":
            out.append([k, draw(st.lists(G.words, min_size=36, max_size=36))])
        else:
            out.append([k])
    return {"ops": out, "v": draw(st.booleans()), "nan": draw(st.sampled_from(["NaN", "NaN", "%s", "."]))}


def run_grid(c):
    if c["nan"] != "NaN":
        L.vs_sh_opts_nan_string(c["nan"])
    d = L.piPiiPiP_sh_data(3 if c["v"] else 0, [1.0, 2.0, 3.0], 0, 0, [], 0, [])
    g = []
    na = nw = 0
    for o in c["ops"]:
        if o[0] == "alloc":
            na += 1
            r = L.ppzz_apop_text_alloc(d, o[1], o[2])
            check(r == d, "text_alloc returned another data set")
            g = [[g[i][j] if i < len(g) and j < len(g[0]) else "" for j in range(o[2])] for i in range(o[1])]
        elif o[0] == "zero":
            L.ppzz_apop_text_alloc(d, 3, 0)   # refused
            L.ppzz_apop_text_alloc(d, 0, 2)
        elif o[0] in ("set", "null", "setf"):
            i, j = o[1:3]
            inb = 0 <= i < len(g) and 0 <= j < (len(g[0]) if g else 0)
            if o[0] == "set":
                r, s = L.ipiis_sh_text_set(d, i, j, o[3]), o[3]
            elif o[0] == "null":
                r, s = L.ipii_sh_text_setnull(d, i, j), c["nan"]
            else:
                r, s = L.ipiisid_sh_text_setf(d, i, j, o[3], o[4], o[5]), "%s|%d|%g" % (o[3], o[4], o[5])
            check((r == 0) == inb, "writing (%s, %s) to a %sx%s grid returned %s", i, j, len(g), len(g[0]) if g else 0, r)
            if inb:
                g[i][j] = s
                nw += 1
        elif o[0] in ("fill", "fillall"):
            arr = (C.c_char_p * (len(o[1]) + 1))(*[enc(x) for x in o[1]], None)
            r = L.ppp_sh_text_fill(d, C.addressof(arr))
            check(r == d, "text_fill returned another data set")
            k = 0
            for row in g:
                for j in range(len(row)):
                    if k < len(o[1]):
                        row[j] = o[1][k]
                    k += 1
            nw += len(o[1])
        elif o[0] == "copy":
            e = L.pp_apop_data_copy(d)
            L.vp_sh_scramble(d)
            free(d)
            d = e
        x = dump(d)
        eq(x["ts"], [len(g), len(g[0])], "grid size after %s" % o[0])
        eq(x["t"], g, "text grid after %s" % json.dumps(o))
        eq(x["v"], [1.0, 2.0, 3.0] if c["v"] else None, "vector")
    free(d)
    return ["nt"] if na > 2 and nw > 3 else []


# ------------------------------------------------------------------ joining
sep = st.sampled_from([" ", ", ", "", "%d", "--", "\n", "%s"])


@st.composite
def paste(draw):
    r, k = draw(G.size(0, 4)), draw(G.size(1, 4, 5))
    w = st.one_of(G.words, st.just(""))
    return {"t": draw(G.matrix(r, k, w)), "between": draw(sep), "before": draw(st.one_of(st.none(), sep, G.words)),
            "after": draw(st.one_of(st.none(), sep, G.words)), "cols": draw(st.one_of(st.none(), sep)), "defsep": draw(st.integers(0, 4)) == 0,
            "prune": draw(st.one_of(st.none(), st.tuples(st.integers(-1, 3), st.integers(0, 1), st.integers(-1, 3)).map(list))),
            "view": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(1, 3)).map(list)))}


def run_paste(c):
    d = mk({"t": c["t"] or None, "v": [1.0]})
    B = " " if c["defsep"] else c["between"]
    BC = B if c["defsep"] or c["cols"] is None else c["cols"]
    got = json.loads(L.spssssI_sh_paste(d, None if c["defsep"] else c["between"], c["before"], c["after"],
                                        None if c["defsep"] else c["cols"], c["prune"]))
    rows = []
    p = c["prune"]
    for i, r in enumerate(c["t"]):
        row = [x for j, x in enumerate(r) if not (p and (j == p[0] or (p[1] and x == "") or i == p[2]))]
        if row:
            rows.append(BC.join(row))
    want = (c["before"] or "") + B.join(rows) + (c["after"] or "")
    check((got or "") == want, "joined text: got %s, expected %s", got, want)
    eq(dump(d)["t"], c["t"] or None, "the grid that was joined")
    free(d)
    return ["nt"] if len(c["t"]) > 1 and len(c["t"][0]) > 1 else []


# ------------------------------------------------------------------ unique elements
@st.composite
def uniq(draw):
    n = draw(G.size(1, 14))
    e = draw(st.sampled_from([G.small, st.integers(0, 2).map(float), st.sampled_from([float("inf"), float("-inf"), 0.0, 1.0, 1 + 2**-52, -1e-308, float("nan")])]))
    k = draw(st.integers(1, 3))
    w = draw(st.sampled_from([G.words, st.sampled_from(["a", "b", "A", "", "aa", "%s", "\xe9"])]))
    return {"v": draw(G.vector(n, e) if n < 12 or draw(st.booleans()) else G.scatter(n)), "t": draw(G.matrix(n, k, w) if n < 12 or draw(st.booleans()) else G.scatter(n * k).map(lambda x: [["%g" % y for y in x[i * k:i * k + k]] for i in range(n)])), "col": draw(st.integers(0, k - 1))}


def run_uniq(c):
    v = vec(c["v"])
    u = L.pp_apop_vector_unique_elements(v)
    want = sorted({x for x in c["v"] if x == x}) + ([float("nan")] if any(x != x for x in c["v"]) else [])
    eq(dvec(u), want, "unique elements")
    eq(dvec(v), c["v"], "the vector itself")
    d = mk({"t": c["t"]})
    x = L.ppz_apop_text_unique_elements(d, c["col"])
    X = dump(x)
    w = sorted({r[c["col"]] for r in c["t"]}, key=enc)
    eq(X["t"], [[s] for s in w], "unique text elements")
    eq(X["ts"], [len(w), 1], "size of the unique-elements grid")
    eq(dump(d)["t"], c["t"], "the grid itself")
    free(d), free(x), L.vp_sh_vector_free(v), L.vp_sh_vector_free(u)
    return ["nt"] if len(w) < len(c["t"]) and len(w) > 1 else []


# ------------------------------------------------------------------ regular expressions
atom = st.sampled_from(list("aaabbb") + list("abAB1 .") + ["[ab]", "[^a]", "[ab]", "[^a]", "[0-9]", "[[:alpha:]]", "\\(", "\\)", "\\.", "\\\\", "[)]", "[(]", "\xe9"])


@st.composite
def rx(draw, depth=2, quant=True):
    """no repetition inside a repeated group: the C library is exponential there"""
    out = ""
    for _ in range(draw(st.integers(1, 2))):
        if depth and draw(st.integers(0, 4)) <= 2:
            q = draw(st.sampled_from(["", "", "", "?", "+", "*", "{2}"])) if quant else ""
            inner = quant and q in ("", "?")
            out += "(" + draw(rx(depth - 1, inner)) + ("|" + draw(rx(depth - 1, inner)) if draw(st.booleans()) else "") + ")" + q
        else:
            out += draw(atom) + (draw(st.sampled_from(["", "", "", "+", "*", "?", "{2}", "{1,2}"])) if quant else "")
    return out


@st.composite
def regex(draw):
    r = draw(rx())
    if draw(st.integers(0, 9)) == 0:
        r = draw(st.sampled_from(["^" + r, r + "$", "(^a|b)", "(", "[", "a)", "*", "^$", "(a*)", "()"]))
    return {"s": draw(st.text(alphabet=draw(st.sampled_from(["ab", "aabbAB1", "aabbcAB1 .()\\\xe9"])), min_size=1, max_size=14)), "re": r, "case": draw(st.sampled_from("yn"))}


def run_regex(c):
    ref_ = json.loads(L.sssi_sh_libc_regex(c["s"], c["re"], int(c["case"] == "n")))
    r = L.issicp_sh_regex(c["s"], c["re"], 0, c["case"], None)
    out = pp()
    r2 = L.issicp_sh_regex(c["s"], c["re"], 1, c["case"], C.addressof(out))
    if ref_ is None:
        eq([r, r2], [-1, -1], "return for an expression that does not compile")
        return ["bad re"]
    m, ns = ref_["m"], ref_["nsub"]
    eq(r, int(bool(m)), "matches of %r in %r" % (c["re"], c["s"]))
    X = dump(out.value)
    check(X is not None, "no sub-match data set")
    if ref_["empty"]:
        check(r2 >= len(m), "%s matches of %r in %r, at least %s expected", r2, c["re"], c["s"], len(m))
    else:
        eq(r2, len(m), "count of successive matches of %r in %r" % (c["re"], c["s"]))
    if ns:
        eq(X["ts"], [r2, ns] if r2 else [0, 0], "shape of the sub-matches")
        eq((X["t"] or [])[:len(m)], m, "sub-matches of %r in %r" % (c["re"], c["s"]))
    else:
        eq(X["ts"][0] * X["ts"][1], 0, "size of the sub-match grid without groups")
    free(out.value)
    return ["nt"] if m and ns and any(any(x) for x in m) else []


FACETS = [Facet("grid", lambda t: ops(), run_grid, quick=3500),
          Facet("paste", lambda t: paste(), run_paste, quick=4000),
          Facet("unique", lambda t: uniq(), run_uniq, quick=2500),
          Facet("large paste", lambda t: G.large(paste), run_paste, quick=60), Facet("large unique", lambda t: G.large(uniq), run_uniq, quick=80),
          Facet("regex", lambda t: regex(), run_regex, quick=5000)]
